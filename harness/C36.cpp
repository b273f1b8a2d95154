// vp: profile=asanub mods=core libs=-lz
// File helpers: a zipped copy decompresses to the original, failures are reported, names are exact.
#include "vp.hpp"
#include <icl_core/os_fs.h>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>
#include <cstring>
#include <dirent.h>
#include <set>
using namespace vp;

static std::string inflateFile(const std::string &p)
{
  // decode with the raw gzip decoder, not with the transparent file reader
  std::string in = readFile(p), out;
  z_stream z;
  std::memset(&z, 0, sizeof z);
  VP_CHECK(inflateInit2(&z, 16 + 15) == Z_OK, "zlib");
  z.next_in = (Bytef *)in.data();
  z.avail_in = (uInt)in.size();
  char buf[65536];
  int r = Z_OK;
  while (r == Z_OK)
  {
    z.next_out = (Bytef *)buf;
    z.avail_out = sizeof buf;
    r = inflate(&z, Z_NO_FLUSH);
    out.append(buf, sizeof buf - z.avail_out);
    if (r == Z_BUF_ERROR)
      break;
  }
  size_t rest = z.avail_in;
  inflateEnd(&z);
  VP_CHECK(r == Z_STREAM_END && rest == 0, "the archive is not one complete gzip stream (" << r << ", " << rest << " bytes left)");
  return out;
}

static std::set<std::string> listDir(const std::string &d)
{
  std::set<std::string> r;
  if (DIR *h = opendir(d.c_str()))
  {
    while (dirent *e = readdir(h))
      if (std::string(e->d_name) != "." && std::string(e->d_name) != "..")
        r.insert(e->d_name);
    closedir(h);
  }
  return r;
}

static std::string content(int64_t seed, int64_t size, int64_t kind)
{
  std::string c;
  uint64_t s = (uint64_t)seed * 6364136223846793005ull + 1442695040888963407ull;
  for (int64_t i = 0; i < size; ++i)
  {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    c += kind == 0 ? (char)(s >> 33) : kind == 1 ? "ab\n"[(s >> 40) % 3] : '\0';
  }
  // a plain file whose first bytes look like an archive is read transparently: not part of the property
  if (c.size() > 1 && (unsigned char)c[0] == 0x1f && (unsigned char)c[1] == 0x8b)
    c[0] = 'x';
  return c;
}

static void run(const Case &c, Ctx &x)
{
  const std::string d = x.dir();
  std::map<std::string, std::string> files; // model of the plain files
  std::map<std::string, std::string> zips;  // model of what the archives contain
  for (const Op &o : c.ops)
  {
    std::string f = S(o, 0), p = d + "/" + f;
    switch (o.k)
    {
    case 0:
      files[f] = content(N(o, 0), N(o, 1), N(o, 2));
      writeFile(p, files[f]);
      break;
    case 1:
    {
      std::string ext = S(o, 1);
      bool dirmissing = ext.find('/') != std::string::npos;
      bool want = files.count(f) && !dirmissing;
      bool got = icl_core::os::zipFile(p.c_str(), ext.c_str());
      VP_CHECK(got == want, "zipFile of " << f << " with extension '" << ext << "' reports " << got << (want ? "" : " although it cannot work"));
      if (got)
      {
        zips[f + ext + ".gz"] = files[f];
        x.nontrivial(files[f].size() > 4096);
        if (files[f].empty())
          x.label("empty file");
        if (files[f].size() > 4096)
          x.label("several blocks");
      }
      else if (!dirmissing)
      {
        // what an unsuccessful call leaves under the target name is not specified
        zips.erase(f + ext + ".gz");
        ::unlink((p + ext + ".gz").c_str());
      }
      break;
    }
    case 2:
    {
      std::string t = S(o, 1);
      bool want = files.count(f) != 0;
      int r = icl_core::os::rename(p.c_str(), (d + "/" + t).c_str());
      VP_CHECK((r == 0) == want, "rename of " << f << " to " << t << " returned " << r);
      if (want && f != t)
      {
        files[t] = files[f];
        files.erase(f);
      }
      break;
    }
    case 3:
    {
      bool want = files.count(f) != 0;
      int r = icl_core::os::unlink(p.c_str());
      VP_CHECK((r == 0) == want, "unlink of " << f << " returned " << r);
      files.erase(f);
      break;
    }
    }
    std::set<std::string> want;
    for (auto &e : files)
      want.insert(e.first);
    for (auto &e : zips)
      want.insert(e.first);
    VP_CHECK(listDir(d) == want, "the directory holds other files than expected");
    for (auto &e : files)
      VP_CHECK(readFile(d + "/" + e.first) == e.second, "content of " << e.first << " changed");
    for (auto &e : zips)
      VP_CHECK(inflateFile(d + "/" + e.first) == e.second, "the archive " << e.first << " does not decompress to its original of " << e.second.size() << " bytes");
  }
}

int main(int argc, char **argv)
{
  auto name = []() { return oneStr({"a", "a", "log.txt", "log.txt", "c d"}); };
  auto g = opGen([name]() {
    switch (pick(0, 5))
    {
    case 0:
    case 1:
      return mk(0, {pick(0, 1 << 30), coin(30) ? oneOf<int64_t>({0, 1, 4095, 4096, 4097, 8192, 12288}) : coin(60) ? pick(4097, 20000) : pick(0, 20000), pick(0, 2)}, {name()});
    case 2:
    case 3:
    {
      Op o = mk(1, {}, {name()});
      o.s.push_back(oneStr({"", ".1", ".2024-01-01", "/no/such"}));
      return o;
    }
    case 4:
      return mk(2, {}, {name(), name()});
    default:
      return mk(3, {}, {name()});
    }
  });
  Sub s{"files", opsCase(g), run, 20000, 300000};
  s.max_size = 24;
  return checkMain(argc, argv, "C36",
                   "histories of writing, zipping, renaming and removing files in a scratch directory, with missing sources and unwritable "
                   "targets; non-trivial: a file longer than one internal block is zipped",
                   {s}, "exploration", {"zlib's raw decoder is trusted"});
}
