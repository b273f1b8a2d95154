// vp: profile=asanub mods=config
// Attribute trees in memory against a reference tree.
#include "vp.hpp"
#include <icl_core_config/AttributeTree.h>
#include <cstring>
#include <memory>
#include <set>
using namespace vp;
using icl_core::config::AttributeTree;

namespace {

struct M
{
  std::string desc, attr;
  bool has_desc = false, has_attr = false;
  M *parent = 0;
  AttributeTree *real = 0;
  std::vector<std::unique_ptr<M>> kids;
  M *find(const std::string &d)
  {
    for (auto &k : kids)
      if (k->has_desc && k->desc == d)
        return k.get();
    return 0;
  }
  M *add(const std::string &d, AttributeTree *r)
  {
    kids.emplace_back(new M);
    M *m = kids.back().get();
    m->desc = d;
    m->has_desc = true;
    m->parent = this;
    m->real = r;
    return m;
  }
};

struct World
{
  std::unique_ptr<AttributeTree> root{new AttributeTree};
  M model;
  int changed = 0; // 0 no, 1 yes, 2 not specified
  World() { model.real = root.get(); }

  std::vector<M *> all()
  {
    std::vector<M *> v{&model};
    for (size_t i = 0; i < v.size(); ++i)
      for (auto &k : v[i]->kids)
        v.push_back(k.get());
    return v;
  }
  M *node(int64_t i)
  {
    auto v = all();
    return v[(uint64_t)i % v.size()];
  }
};

std::vector<std::string> parts(const std::string &p)
{
  std::vector<std::string> r(1);
  for (char c : p)
    if (c == '.')
      r.push_back("");
    else
      r.back() += c;
  return r;
}

M *walk(M *m, const std::string &path)
{
  for (auto &p : parts(path))
    if (!(m = m->find(p)))
      return 0;
  return m;
}

// creates what is missing, following the real tree for the new nodes
M *create(M *m, const std::string &path)
{
  for (auto &p : parts(path))
  {
    M *k = m->find(p);
    if (!k)
    {
      AttributeTree *r = m->real->getSubTree(p.c_str());
      VP_CHECK(r, "no node '" << p << "' was created for path '" << path << "'");
      k = m->add(p, r);
    }
    m = k;
  }
  return m;
}

void compare(M &m, AttributeTree *t, AttributeTree *parent, AttributeTree *root, bool same_nodes)
{
  if (same_nodes)
    VP_CHECK(m.real == t, "a node was replaced");
  VP_EQ(t->getDescription() != 0, m.has_desc, "description of node " << m.desc);
  if (m.has_desc)
    VP_EQ(std::string(t->getDescription()), m.desc, "description");
  VP_EQ(t->attribute() != 0, m.has_attr, "attribute of node " << m.desc);
  if (m.has_attr)
  {
    VP_EQ(std::string(t->attribute()), m.attr, "attribute of node " << m.desc);
    VP_EQ(std::string(t->getAttribute()), m.attr, "attribute of node " << m.desc);
  }
  VP_CHECK(t->parentTree() == parent && t->parent() == parent, "parent of node " << m.desc);
  VP_CHECK(t->root() == root, "root of node " << m.desc);
  std::set<AttributeTree *> seen;
  size_t n = 0;
  for (AttributeTree *k = t->firstSubTree(); k; k = t->nextSubTree(k))
  {
    VP_CHECK(seen.insert(k).second, "sub tree enumerated twice below " << m.desc);
    ++n;
    M *mk = k->getDescription() ? m.find(k->getDescription()) : 0;
    VP_CHECK(mk, "unexpected sub tree '" << (k->getDescription() ? k->getDescription() : "(null)") << "' below '" << m.desc << "'");
    compare(*mk, k, t, root, same_nodes);
  }
  VP_EQ(n, m.kids.size(), "number of sub trees of " << m.desc);
}

int count(M &m)
{
  int r = m.has_attr;
  for (auto &k : m.kids)
    r += count(*k);
  return r;
}
bool anyMatch(M &m, const std::string &d, const std::string *a)
{
  if (m.has_desc && m.desc == d && (!a || (m.has_attr && m.attr == *a)))
    return true;
  for (auto &k : m.kids)
    if (anyMatch(*k, d, a))
      return true;
  return false;
}
std::vector<AttributeTree *> order(AttributeTree *t)
{
  std::vector<AttributeTree *> v;
  for (AttributeTree *k = t->firstSubTree(); k; k = t->nextSubTree(k))
    v.push_back(k);
  return v;
}
bool within(M *m, M *top)
{
  for (; m; m = m->parent)
    if (m == top)
      return true;
  return false;
}
std::unique_ptr<M> detach(M *m)
{
  M *p = m->parent;
  for (size_t i = 0; i < p->kids.size(); ++i)
    if (p->kids[i].get() == m)
    {
      std::unique_ptr<M> r = std::move(p->kids[i]);
      p->kids.erase(p->kids.begin() + i);
      r->parent = 0;
      return r;
    }
  return 0;
}
// the name without the number at its end
std::string stem(std::string s)
{
  while (!s.empty() && isdigit((unsigned char)s.back()))
    s.pop_back();
  return s;
}
void bind(M &m, AttributeTree *t)
{
  m.real = t;
  for (auto &k : m.kids)
    bind(*k, t->getSubTree(k->desc.c_str()));
}
std::unique_ptr<M> clone(M &m)
{
  std::unique_ptr<M> r(new M);
  r->desc = m.desc, r->attr = m.attr, r->has_desc = m.has_desc, r->has_attr = m.has_attr;
  for (auto &k : m.kids)
  {
    r->kids.push_back(clone(*k));
    r->kids.back()->parent = r.get();
  }
  return r;
}

void run(const Case &c, Ctx &x)
{
  World w;
  int structural = 0, deep = 0;
  for (const Op &o : c.ops)
  {
    M *m = w.node(N(o, 0));
    AttributeTree *t = m->real;
    std::string d = S(o, 0), v = S(o, 1);
    switch (o.k)
    {
    case 0: // set
    {
      M *before = walk(m, d);
      bool same = before && before->has_attr && before->attr == v;
      AttributeTree *r = t->setAttribute(d.c_str(), v.c_str());
      M *k = create(m, d);
      VP_CHECK(r == k->real, "setAttribute('" << d << "') returned another node");
      k->has_attr = true;
      k->attr = v;
      if (!same)
        w.changed = 1;
      deep += parts(d).size() > 1;
      break;
    }
    case 1: // only find or create
    {
      bool existed = walk(m, d) != 0;
      AttributeTree *r = t->setAttribute(d.c_str(), 0);
      M *k = create(m, d);
      VP_CHECK(r == k->real, "setAttribute('" << d << "', 0) returned another node");
      if (!existed && w.changed == 0)
        w.changed = 2;
      break;
    }
    case 2: // get
    {
      M *k = walk(m, d);
      bool has = k && k->has_attr;
      AttributeTree *sub = (AttributeTree *)1;
      const char *def = N(o, 1) ? "the default" : 0;
      const char *r = t->getAttribute(d.c_str(), def, N(o, 2) ? &sub : 0);
      if (has)
        VP_CHECK(r && k->attr == r, "getAttribute('" << d << "') is " << (r ? r : "(null)") << ", expected " << k->attr);
      else
        VP_CHECK(r == def, "getAttribute('" << d << "') is " << (r ? r : "(null)") << ", expected the default");
      if (N(o, 2))
        VP_CHECK(sub == (has ? k->real : 0), "getAttribute('" << d << "') gives another node");
      VP_EQ(t->isAttribute(d.c_str()), has, "isAttribute " << d);
      VP_EQ(t->isAttribute(d.c_str(), v.c_str()), has && k->attr == v, "isAttribute " << d);
      break;
    }
    case 3: // get or set
    {
      M *k = walk(m, d);
      bool has = k && k->has_attr;
      std::string want = has ? k->attr : v;
      const char *r = t->getOrSetDefault(d.c_str(), v.c_str());
      VP_CHECK(r && want == r, "getOrSetDefault('" << d << "') is " << (r ? r : "(null)") << ", expected " << want);
      k = create(m, d);
      k->has_attr = true;
      k->attr = want;
      if (!has)
        w.changed = 1;
      break;
    }
    case 4: // direct sub tree
    {
      d = parts(d)[0];
      M *k = m->find(d);
      AttributeTree *g = t->getSubTree(d.c_str());
      VP_CHECK(g == (k ? k->real : 0), "getSubTree(" << d << ")");
      if (N(o, 1))
      {
        AttributeTree *r = t->subTree(d.c_str());
        if (k)
          VP_CHECK(r == k->real, "subTree(" << d << ") returned another node");
        else
        {
          create(m, d);
          VP_CHECK(r == m->find(d)->real, "subTree(" << d << ") returned another node");
          if (w.changed == 0)
            w.changed = 2;
        }
      }
      break;
    }
    case 5: // new numbered node
    {
      ++structural;
      d = parts(d)[0];
      char *n = t->newSubNodeDescription(d.c_str());
      std::string name = n;
      free(n);
      VP_CHECK(!m->find(name), "new description " << name << " is in use");
      VP_CHECK(stem(name) == stem(d) && name != stem(d), "new description for " << d << " is " << name);
      if (N(o, 1))
      {
        AttributeTree *r = t->addNewSubTree();
        VP_CHECK(r && r->getDescription() && r->parentTree() == t, "addNewSubTree");
        VP_CHECK(!m->find(r->getDescription()), "new node " << r->getDescription() << " has a name in use");
        m->add(r->getDescription(), r);
        if (w.changed == 0)
          w.changed = 2;
      }
      break;
    }
    case 6: // insert a tree
    case 7: // insert a tree behind a node
    {
      ++structural;
      d = parts(d)[0];
      AttributeTree *n = new AttributeTree(d.c_str());
      n->setAttribute("inner.value", v.c_str());
      n->setAttribute(v.c_str());
      M *p = o.k == 6 ? m : m->parent;
      AttributeTree *r = o.k == 6 ? t->addSubTree(n) : t->addNextTree(n);
      if (!p)
      {
        VP_CHECK(r == 0, "addNextTree of a root");
        VP_CHECK(n->parentTree() == 0, "addNextTree of a root");
        delete n;
        break;
      }
      VP_CHECK(r == n, "inserted another tree");
      std::string name = n->getDescription();
      if (p->find(d))
        VP_CHECK(!p->find(name) && stem(name) == stem(d), "tree " << d << " was inserted as " << name);
      else
        VP_EQ(name, d, "inserted tree");
      if (o.k == 7)
        VP_CHECK(p->real->nextSubTree(t) == n, "the tree is not the next one");
      M *k = p->add(name, n);
      k->has_attr = true;
      k->attr = v;
      M *i = create(k, "inner.value");
      i->has_attr = true;
      i->attr = v;
      w.changed = 1; // the new tree was never saved
      break;
    }
    case 8: // copy
    {
      ++structural;
      if (N(o, 1) == 0)
      {
        AttributeTree copy(*t);
        VP_CHECK(!copy.changed(), "a new copy is changed");
        compare(*m, &copy, 0, &copy, false);
        copy.setAttribute("only in the copy", "1");
        if (m->has_attr)
          copy.setAttribute("overwritten");
        break;
      }
      M *p = w.node(N(o, 2));
      if (!m->has_desc || p->find(m->desc) || within(p, m) || w.all().size() > 60)
        break;
      AttributeTree *n = new AttributeTree(*t, p->real);
      p->kids.push_back(clone(*m));
      p->kids.back()->parent = p;
      bind(*p->kids.back(), n);
      if (w.changed == 0)
        w.changed = 2;
      break;
    }
    case 9: // delete
    {
      if (!m->parent)
        break;
      ++structural;
      delete t;
      detach(m);
      w.changed = 1;
      break;
    }
    case 10: // move: unlink and insert elsewhere
    {
      if (!m->parent)
        break;
      M *p = w.node(N(o, 1));
      if (within(p, m))
        break;
      ++structural;
      t->unlink();
      VP_CHECK(t->parentTree() == 0, "an unlinked tree has a parent");
      std::unique_ptr<M> k = detach(m);
      compare(*k, t, 0, t, true);
      compare(w.model, w.root.get(), 0, w.root.get(), true);
      bool used = p->find(k->desc) != 0;
      VP_CHECK(p->real->addSubTree(t) == t, "addSubTree");
      std::string name = t->getDescription();
      if (used)
        VP_CHECK(!p->find(name) && stem(name) == stem(k->desc), "tree " << k->desc << " was inserted as " << name);
      else
        VP_EQ(name, k->desc, "inserted tree");
      k->desc = name;
      k->parent = p;
      p->kids.push_back(std::move(k));
      w.changed = 1;
      break;
    }
    case 11: // search
    {
      d = parts(d)[0];
      const std::string *a = N(o, 1) ? &v : 0;
      AttributeTree *r = t->search(d.c_str(), a ? a->c_str() : 0);
      VP_EQ(r != 0, anyMatch(*m, d, a), "search for " << d << (a ? " with attribute " + v : ""));
      if (r)
      {
        VP_CHECK(r->getDescription() && d == r->getDescription(), "search found another description");
        VP_CHECK(!a || (r->attribute() && v == r->attribute()), "search found another attribute");
        AttributeTree *up = r;
        while (up && up != t)
          up = up->parentTree();
        VP_CHECK(up == t, "search left the tree");
      }
      break;
    }
    case 12:
      w.root->unmarkChanges();
      w.changed = 0;
      break;
    case 13: // order
    {
      auto a = order(t);
      t->revertOrder();
      auto b = order(t);
      std::reverse(a.begin(), a.end());
      VP_CHECK(a == b, "revertOrder does not revert the order");
      break;
    }
    case 14: // comment
    {
      t->setComment(v.c_str());
      M *k = create(m, "_COMMENT_");
      if (!(k->has_attr && k->attr == v))
        w.changed = 1;
      k->has_attr = true;
      k->attr = v;
      VP_EQ(std::string(t->comment()), v, "comment");
      VP_CHECK(t->hasComment() && t->commentAttributeTree() == k->real && k->real->isComment(), "comment");
      VP_EQ(t->hasMultilineComment(), v.find('\n') != std::string::npos, "comment");
      break;
    }
    case 15: // append
    {
      std::string sep = N(o, 1) ? "\n" : "";
      if (N(o, 1))
        t->appendAttribute(v.c_str(), sep.c_str());
      else
        t->appendAttribute(v.c_str());
      m->attr = m->has_attr ? m->attr + sep + v : v;
      m->has_attr = true;
      w.changed = 1;
      break;
    }
    case 16: // rename
    {
      d = parts(d)[0];
      if (!m->parent || m->parent->find(d))
        break;
      t->setDescription(d.c_str());
      m->desc = d;
      if (w.changed == 0)
        w.changed = 2;
      break;
    }
    default:
      break;
    }
    compare(w.model, w.root.get(), 0, w.root.get(), true);
    VP_EQ(t == 0, false, "");
    VP_EQ(w.root->contains(), count(w.model), "contains");
    if (w.changed != 2)
      VP_EQ(w.root->changed(), w.changed == 1, "changed");
    for (auto k : w.all())
    {
      M *cm = k->find("_COMMENT_");
      VP_EQ(std::string(k->real->comment()), cm && cm->has_attr ? cm->attr : std::string(), "comment of " << k->desc);
      VP_EQ(k->real->isComment(), k->has_desc && k->desc == "_COMMENT_", "isComment");
      VP_EQ(k->real->isMultilineComment(), k->has_desc && k->desc == "_COMMENT_" && k->has_attr && k->attr.find('\n') != std::string::npos, "isMultilineComment");
    }
  }
  x.nontrivial(structural >= 2 && deep >= 1 && w.all().size() > 4);
}

} // namespace

int main(int argc, char **argv)
{
  auto name = [] { return oneStr({"a", "b", "c", "x", "x1", "x9", "12", "n-3", "x099999999", "99999"}); };
  auto path = [=] {
    std::string s = name();
    while (coin(45))
      s += "." + name();
    return s;
  };
  auto val = [] { return oneStr({"", "1", "2", "v w", "a.b", "x:y", "line\nbreak"}); };
  auto g = opGen([=] {
    static const int w[] = {0, 0, 0, 0, 1, 2, 2, 2, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 10, 10, 11, 11, 12, 13, 14, 15, 16};
    int k = w[pick(0, sizeof w / sizeof *w - 1)];
    return mk(k, {pick(0, 40), k == 10 ? pick(0, 40) : pick(0, 1), k == 8 ? pick(0, 40) : pick(0, 1)}, {path(), val()});
  });
  Sub s{"tree", opsCase(g), run, 20000, 500000};
  s.max_size = 50;
  return checkMain(argc, argv, "C15", "at least two structural operations, one attribute set through a composed name, more than four nodes at the end", {s});
}
