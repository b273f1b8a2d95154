// The plugin interfaces of the check of the plugin manager.
#ifndef ANIMAL_HPP
#define ANIMAL_HPP
#include <cstring>
#include <dlfcn.h>
#include <icl_core_plugin/Plugin.h>
#include <string>

extern "C" void vpBorn(void *);
extern "C" void vpDied(void *);

struct Animal
{
  ICL_CORE_PLUGIN_DECLARE_PLUGIN_INTERFACE(Animal)
  Animal() { vpBorn(this); }
  virtual ~Animal() { vpDied(this); }
  virtual int answer() const = 0;
};
struct Plant
{
  ICL_CORE_PLUGIN_DECLARE_PLUGIN_INTERFACE(Plant)
  Plant() { vpBorn(this); }
  virtual ~Plant() { vpDied(this); }
  virtual int answer() const = 0;
};
#endif
