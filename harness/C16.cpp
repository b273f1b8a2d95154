// vp: profile=asanub mods=config
// Attribute tree files: what is saved is loaded again, documents in every style are read as written,
// and no text makes the reader crash or run forever.
#include "vp.hpp"
#include <icl_core_config/AttributeTree.h>
#include <cstdlib>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
using namespace vp;
using icl_core::config::AttributeTree;
using icl_core::config::FilePath;

namespace {

typedef std::map<std::string, std::string> Map;
const char *V1 = "_ATTRIBUTE_TREE_FILE_PATH_", *V2 = "_ATTRIBUTE_TREE_FILE_NAME_";

struct Quiet
{
  int saved;
  Quiet()
  {
    fflush(stdout);
    saved = dup(1);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
  }
  ~Quiet()
  {
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
  }
};

void collect(AttributeTree *t, const std::string &path, Map &m)
{
  if (t->attribute())
    m[path] = t->attribute();
  for (AttributeTree *k = t->firstSubTree(); k; k = t->nextSubTree(k))
  {
    std::string d = k->getDescription() ? k->getDescription() : "";
    if (d == V1 || d == V2)
      continue;
    std::string p = path + "/" + d;
    VP_CHECK(!m.count(p), "two nodes " << p);
    collect(k, p, m);
  }
}
std::string show(const Map &m)
{
  std::string r;
  for (auto &p : m)
    r += p.first + "='" + p.second + "' ";
  return r;
}
std::string slashes(std::string s)
{
  for (char &c : s)
    if (c == '.')
      c = '/';
  return s.empty() ? s : "/" + s;
}
std::vector<std::string> lines(const std::string &s)
{
  std::vector<std::string> r(1);
  for (char c : s)
    if (c == '\n')
      r.push_back("");
    else
      r.back() += c;
  return r;
}
std::vector<std::string> dfs(AttributeTree *t)
{
  std::vector<std::string> v;
  for (AttributeTree *k = t->firstSubTree(); k; k = t->nextSubTree(k))
  {
    std::string d = k->getDescription() ? k->getDescription() : "";
    if (d == V1 || d == V2)
      continue;
    v.push_back(d);
    for (auto &s : dfs(k))
      v.push_back(s);
  }
  return v;
}

void saveLoad(const Case &c, Ctx &x)
{
  AttributeTree t;
  Map want;
  int depth = 3, flags = 0;
  bool multi = false, nested = false;
  for (const Op &o : c.ops)
  {
    std::string p = S(o, 0), v = S(o, 1);
    if (o.k == 0)
    {
      depth = (int)N(o, 0);
      flags = (int)N(o, 1);
    }
    else if (o.k == 1 && v != "")
    {
      if (p.empty())
        t.setAttribute(v.c_str());
      else
        t.setAttribute(p.c_str(), v.c_str());
      want[slashes(p)] = v;
      nested = nested || p.find('.') != std::string::npos;
    }
    else if (o.k == 2 && v != "")
    {
      AttributeTree *n = p.empty() ? &t : t.setAttribute(p.c_str(), 0);
      n->setComment(v.c_str());
      want[slashes(p) + "/_COMMENT_"] = v;
      multi = multi || v.find('\n') != std::string::npos;
    }
  }
  bool comments = flags & 1, file = flags & 2, keep = flags & 4;
  Map orig;
  collect(&t, "", orig);
  VP_EQ(show(orig), show(want), "tree that is saved");
  t.printSubTree(std::cout.rdbuf() ? *new std::ostringstream : std::cout, depth); // printing changes nothing
  VP_EQ(t.changed(), !want.empty(), "changed before saving");
  std::string text;
  AttributeTree l;
  if (file)
  {
    std::string f = x.dir() + "/sub.d/t.tree";
    VP_CHECK(t.save(f.c_str(), depth) == AttributeTree::eFILE_SAVE_ERROR, "saved into a missing directory");
    mkdir((x.dir() + "/sub.d").c_str(), 0700);
    Quiet q;
    VP_CHECK(l.load(f.c_str()) == AttributeTree::eFILE_LOAD_ERROR, "loaded a missing file");
    AttributeTree l2;
    VP_EQ(t.save(f.c_str(), depth, (flags & 8) != 0), (int)AttributeTree::eOK, "save");
    text = readFile(f);
    VP_EQ(l2.load(f.c_str(), (flags & 16) != 0, true, comments, keep), (int)AttributeTree::eOK, "load of\n" << text);
    VP_EQ(l2.changed(), !(flags & 16), "changed after loading");
    VP_EQ(std::string(l2.getFilePath()), x.dir() + "/sub.d/", "path of the file");
    VP_EQ(std::string(l2.fileName()), std::string("t.tree"), "name of the file");
    Map got;
    collect(&l2, "", got);
    if (!comments)
      for (auto i = want.begin(); i != want.end();)
        if (i->first.find("_COMMENT_") != std::string::npos)
          want.erase(i++);
        else
          ++i;
    VP_EQ(show(got), show(want), "loaded from\n" << text);
    if (keep && comments)
    {
      // nodes without any attribute are not stored: compare only if there are none
      if (dfs(&t).size() == dfs(&l2).size())
        VP_CHECK(dfs(&t) == dfs(&l2), "order after loading\n" << text);
    }
    VP_EQ(t.changed(), !want.empty() || !orig.empty() ? !(flags & 8) : false, "changed after saving");
  }
  else
  {
    std::ostringstream o;
    t.printSubTree(o, depth);
    text = o.str();
    std::istringstream i(text);
    VP_EQ(l.get(i, true, comments), -1, "reading\n" << text);
    Map got;
    collect(&l, "", got);
    if (!comments)
      for (auto i = want.begin(); i != want.end();)
        if (i->first.find("_COMMENT_") != std::string::npos)
          want.erase(i++);
        else
          ++i;
    VP_EQ(show(got), show(want), "read from\n" << text);
  }
  x.nontrivial(nested && want.size() >= 3);
  if (multi)
    x.label("comment of several lines");
  if (text.find('{') != std::string::npos)
    x.label("with blocks");
}

// ---- documents -------------------------------------------------------------------------------
struct Doc
{
  std::string text;
  std::vector<const Op *> ops;
};

struct Reader
{
  std::vector<Doc> docs;
  bool comments = false, includes = true;
  int used = 0, depth = 0;
  // plays the operations of a document into the map
  void play(size_t d, const std::string &at0, Map &m)
  {
    if (d >= docs.size() || ++depth > 20)
      return;
    std::vector<std::string> st{at0};
    int anon = 0;
    for (const Op *o : docs[d].ops)
    {
      const std::string &at = st.back();
      std::string p = S(*o, 0), v = S(*o, 1);
      switch (o->k)
      {
      case 1: m[at + slashes(p)] = v; break;
      case 2: st.push_back(at + slashes(p)); break;
      case 3:
        if (st.size() > 1)
          st.pop_back();
        break;
      case 4: m[at] = v; break;
      case 7:
        if (comments)
          m[at + "/_COMMENT_"] = v;
        break;
      case 8:
        ++used;
        if (includes)
          play((size_t)N(*o, 1) , at, m);
        break;
      }
    }
    --depth;
  }
};

void documents(const Case &c, Ctx &x)
{
  Reader r;
  bool crlf = false, last = true, wrap = false;
  int flags = 0;
  for (const Op &o : c.ops)
    if (o.k == 0)
      flags = (int)N(o, 0);
  crlf = flags & 1, last = !(flags & 2), r.comments = flags & 4, r.includes = !(flags & 8);
  r.docs.resize(3);
  setenv("VP_TREE_SUB", "sub", 1);
  std::string dir = x.dir();
  mkdir((dir + "/sub").c_str(), 0700);
  std::string names[3] = {dir + "/a.tree", dir + "/sub/b.tree", dir + "/sub/c"};
  int blocks = 0, open[3] = {0, 0, 0};
  int many = 0;
  std::vector<int> commented;
  for (const Op &o : c.ops)
  {
    if (o.k == 0)
      continue;
    int f = (int)(N(o, 0) % 3);
    Doc &d = r.docs[f];
    std::string in(N(o, 2) % 5, N(o, 2) % 2 ? ' ' : '\t'), nl = crlf ? "\r\n" : "\n";
    std::string p = S(o, 0), v = S(o, 1);
    if (o.k == 3 && open[f] == 0)
      continue;
    if (o.k == 7)
    {
      // one comment per document and node: several of them would be several nodes
      if (f != 0 || many++)
        continue;
      if (v.find('\n') == std::string::npos || open[f] )
        continue;
    }
    if (o.k == 8 && N(o, 1) <= f)
      continue;
    if (o.k == 8 && !r.includes)
      continue;
    switch (o.k)
    {
    case 1: d.text += in + p + ":" + v + nl; break;
    case 2:
      d.text += in + p + "{" + nl;
      ++open[f];
      ++blocks;
      break;
    case 3:
      d.text += in + "}" + p + nl;
      --open[f];
      break;
    case 4: d.text += in + ":" + v + nl; break;
    case 5: d.text += in + "#" + v + " a:b{ }" + nl; break;
    case 6: d.text += nl; break;
    case 7:
      d.text += in + "_COMMENT_{" + nl;
      for (auto &l : lines(v))
        d.text += in + l + "  " + nl;
      d.text += in + "}_COMMENT_" + nl;
      break;
    case 8:
      d.text += in + "_INCLUDE_:" +
                (N(o, 3) == 1 ? names[N(o, 1)]
                 : N(o, 3) == 2 ? "./" + std::string(f == 0 ? "${VP_TREE_SUB}/" : "../${VP_TREE_SUB}\\") + names[N(o, 1)].substr(dir.size() + 5)
                                : std::string(f == 0 ? "sub/" : "") + names[N(o, 1)].substr(dir.size() + 5)) + nl;
      break;
    default: continue;
    }
    d.ops.push_back(&o);
  }
  for (int i = 0; i < 3; ++i)
  {
    std::string t = r.docs[i].text;
    if (!last)
      while (!t.empty() && (t.back() == '\n' || t.back() == '\r'))
        t.pop_back();
    writeFile(names[i], t);
  }
  Map want, got;
  r.play(0, "", want);
  AttributeTree t;
  Quiet q;
  int res = t.load(names[0].c_str(), true, r.includes, r.comments);
  VP_EQ(res, (int)AttributeTree::eOK, "load of\n" << readFile(names[0]));
  collect(&t, "", got);
  VP_EQ(show(got), show(want), "document\n" << readFile(names[0]) << "\n--- sub/b.tree\n" << readFile(names[1]) << "\n--- sub/c\n" << readFile(names[2]) << "\n");
  // reading and storing it again keeps it
  bool plain = true;
  for (auto &p : want)
    plain = plain && !p.second.empty();
  if (plain)
  {
    std::ostringstream o;
    t.printSubTree(o, flags % 5);
    std::istringstream i(o.str());
    AttributeTree u;
    VP_EQ(u.get(i, true, true), -1, "reading\n" << o.str());
    Map again;
    collect(&u, "", again);
    VP_EQ(show(again), show(want), "stored and read again\n" << o.str());
  }
  x.nontrivial(blocks >= 2 && want.size() >= 3);
  if (r.used)
    x.label("includes");
  if (crlf)
    x.label("CRLF");
  if (!last)
    x.label("last line without end");
  (void)wrap;
}

void fuzz(const Case &c, Ctx &x)
{
  std::string text;
  for (const Op &o : c.ops)
    text += S(o, 0);
  std::istringstream i(text);
  AttributeTree t;
  int r;
  r = t.get(i, false, c.ops.size() % 2 == 0);
  std::ostringstream o;
  t.printSubTree(o, (int)(c.ops.size() % 4));
  std::istringstream j(o.str());
  AttributeTree u;
  u.get(j, false, true);
  x.nontrivial(r == -1 && t.contains() >= 2);
  if (text.size() > 4000)
    x.label("long");
}

} // namespace

int main(int argc, char **argv)
{
  auto name = [] { return oneStr({"a", "b", "c", "my node", "x1", "_COMMEN", "12", "n-3", "a\\b"}); };
  auto path = [=] {
    std::string s = name();
    while (coin(45))
      s += "." + name();
    return s;
  };
  auto val = [] {
    if (coin(3))
      return std::string((size_t)pick(1900, 5000), 'v');
    return oneStr({"1", "2", " v w ", "a.b", "x:y", "}", "{", "#", "a{b}", "_INCLUDE_:z", "\t", "${HOME}"});
  };
  auto comment = [=] {
    return coin(40) ? oneStr({"one line", "a:b"}) : oneStr({"line 1\nline 2", "\nx", "a:b\n{\n}\n#c", "a\n\nb"});
  };
  Sub a{"save-load", headCase(opGen([] { return mk(0, {pick(0, 6), pick(0, 31)}); }), opGen([=] {
                      std::string p = coin(5) ? std::string() : path();
                      return coin(80) ? mk(1, {}, {p, val()}) : mk(2, {}, {p, comment()});
                    })), saveLoad, 8000, 200000};
  a.max_size = 20;
  Sub b{"documents", headCase(opGen([] { return mk(0, {pick(0, 15)}); }), opGen([=] {
                       static const int w[] = {1, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 8};
                       int k = w[pick(0, sizeof w / sizeof *w - 1)];
                       return mk(k, {coin(60) ? 0 : pick(0, 2), pick(0, 2), pick(0, 4), pick(0, 2)}, {path(), k == 7 ? comment() : val()});
                     })), documents, 8000, 200000};
  b.max_size = 40;
  Sub f{"any-text", opsCase(opGen([=] {
          if (coin(2))
            return mk(0, {}, {std::string((size_t)pick(1000, 5000), "ax {:\n"[pick(0, 5)])});
          return mk(0, {}, {oneStr({"{", "}", ":", ".", "\n", "\n", "\n", "_COMMENT_", "\n_COMMENT_{\n", "\n}_COMMENT_\n", "#", " ", "a", "b", "_INCLUDE_", "\r", "\t", "a.b", "a:1\n", "\xff", "_ATTRIBUTE_TREE_FILE_PATH_"})});
        })), fuzz, 20000, 800000};
  f.max_size = 60;
  f.timeout = 20;
  return checkMain(argc, argv, "C16",
                   "save-load: at least three entries and one below another; documents: at least two blocks and three entries; any-text: read to its end with at least two entries",
                   {a, b, f});
}
