// A plugin that is identified by the start of its file's name; macros leave parts of it out.
#include "animal.hpp"

static const char *ownName()
{
  static char name[200];
  Dl_info i;
  if (!*name && dladdr((void *)&ownName, &i))
  {
    const char *b = strrchr(i.dli_fname, '/');
    strncpy(name, b ? b + 1 : i.dli_fname, sizeof name - 1);
    if (char *e = strchr(name, '-'))
      *e = 0;
  }
  return name;
}

#ifdef PLANT
typedef Plant Base;
#else
typedef Animal Base;
#endif
struct Own : public Base
{
  ICL_CORE_PLUGIN_DECLARE_PLUGIN
  int answer() const override { return 42; }
};

#if defined(ANIMAL) || defined(PLANT)
ICL_CORE_PLUGIN_REGISTER_PLUGIN(Base, Own, ownName())
#else
std::string Own::Identifier() const { return ownName(); }
#ifndef NO_IDENTIFIER
extern "C" const char *identifier() { return ownName(); }
#endif
#ifndef NO_BASETYPE
extern "C" const char *basetype() { return typeid(Base).name(); }
#endif
#ifndef NO_LOAD
extern "C" Base *load_plugin()
{
#ifdef NULL_LOAD
  return nullptr;
#else
  return new Own;
#endif
}
#endif
#endif
