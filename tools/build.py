#!/usr/bin/env python3
"""Builds the check of one property (or all) from /repo's current working tree.

Every harness harness/<id>.cpp names in its head what it needs:
  // vp: profile=asan mods=core,config wrap=clock_gettime,gettimeofday libs=-ldl plugins=a,b
The library sources come from the repository's module directories (every .cpp that is not for
another platform), so a source file that is added or split is picked up.
"""
import os, re, subprocess, sys, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = REPO + "/src/icl_core/src"
BUILD = os.environ.get("VP_BUILD", ROOT + "/build")

MODS = {"core": "icl_core", "config": "icl_core_config", "logging": "icl_core_logging",
        "thread": "icl_core_thread", "plugin": "icl_core_plugin", "dispatch": "icl_core_dispatch",
        "perf": "icl_core_performance_monitor"}
DEPS = {"core": [], "config": ["core"], "logging": ["config", "core"],
        "thread": ["logging", "config", "core"], "plugin": ["logging", "config", "core"],
        "dispatch": ["thread", "logging", "config", "core"],
        "perf": ["thread", "logging", "config", "core"]}
OTHER = re.compile(r"(win32|lxrt3|darwin|qnx)", re.I)

DEFS = ("-D_SYSTEM_POSIX_ -D_SYSTEM_LINUX_ -D_SYSTEM_IDENTIFIER_=x86_64.Linux -D_IC_BUILDER_DEPRECATED_STYLE_ "
        "-DTIXML_USE_STL -D_IC_BUILDER_ENABLE_BASE_TYPES_ -DBOOST_ALL_NO_LIB -DBOOST_DYN_LINK "
        "-D_IC_BUILDER_BOOST_ -D_IC_BUILDER_BOOST_DATE_TIME_ -D_IC_BUILDER_BOOST_REGEX_ "
        "-D_IC_BUILDER_BOOST_FILESYSTEM_ -D_IC_BUILDER_BOOST_SYSTEM_ -D_IC_BUILDER_HAS_TIME_H_ "
        "-D_IC_BUILDER_HAS_SYS_TIME_H_ -D_IC_BUILDER_ZLIB_ -D_IC_BUILDER_PTHREAD_ -D_IC_BUILDER_Pthread_ "
        "-D_IC_BUILDER_SQLITE3_ -D_IC_BUILDER_SQLite3_ -D_IC_BUILDER_TINYXML_ -D_IC_BUILDER_EIGEN3_ "
        "-D_IC_BUILDER_EIGEN_ -D_IC_BUILDER_ICL_CORE_ -D_IC_BUILDER_ICL_CORE_CONFIG_ "
        "-D_IC_BUILDER_ICL_CORE_LOGGING_ -D_IC_BUILDER_ICL_CORE_PLUGIN_ -D_IC_BUILDER_ICL_CORE_THREAD_ "
        "-D_IC_BUILDER_ICL_CORE_DISPATCH_ -D_IC_BUILDER_ICL_CORE_CRYPT_ "
        "-D_IC_BUILDER_ICL_CORE_PERFORMANCE_MONITOR_")
BASE = "-w -msse -msse2 -DNDEBUG -g1 -fno-omit-frame-pointer"
PROFILES = {
    # name: (library flags, harness flags, link flags)
    "asan": ("-O1 -fsanitize=address", "-O1 -fsanitize=address", "-fsanitize=address"),
    "asanub": ("-O1 -fsanitize=address,undefined -fno-sanitize=vptr,alignment -fno-sanitize-recover=undefined",
               "-O1 -fsanitize=address", "-fsanitize=address,undefined"),
    "plain": ("-O2", "-O1", ""),
    # every basic block of the library is a point at which the harness can switch threads
    "schedasan": ("-O1 -fsanitize=address -fsanitize-coverage=trace-pc", "-O1 -fsanitize=address", "-fsanitize=address"),
    "sched": ("-O1 -fsanitize-coverage=trace-pc", "-O1", ""),
}
LIBS = "-lrapidcheck -ltinyxml -lboost_regex -lboost_filesystem -lboost_system -lboost_date_time -lsqlite3 -lz -lpthread -ldl"


def head(path):
    d = {"profile": "asan", "mods": "core", "wrap": "", "libs": "", "extra": "", "plugins": "", "flags": "", "libflags": ""}
    for line in open(path):
        if line.startswith("// vp:"):
            for kv in line[6:].split():
                k, v = kv.split("=", 1)
                d[k] = v
            break
    return d


def sources(mod):
    fs = sorted(glob.glob("%s/%s/*.cpp" % (SRC, MODS[mod])))
    return [f for f in fs if not OTHER.search(os.path.basename(f)) and os.path.basename(f) not in ("example_usage.cpp",)]


def main():
    ids = sys.argv[1:]
    if not ids:
        ids = sorted(os.path.basename(p)[:-4] for p in glob.glob(ROOT + "/harness/[A-Z][0-9]*.cpp"))
    os.makedirs(BUILD, exist_ok=True)
    # A build directory that is already good for other ids keeps its objects; the file is per call.
    nf = BUILD + "/" + ("all" if len(ids) != 1 else ids[0]) + ".ninja"
    out = ["ninja_required_version = 1.3", "builddir = %s/%s.d" % (BUILD, os.path.basename(nf)),
           "rule cc", "  command = g++ -std=c++17 $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
           "  description = CC $in",
           "rule link", "  command = g++ $in -o $out $flags", "  description = LINK $out",
           "rule so", "  command = g++ -std=c++17 -shared -fPIC $flags -MMD -MF $out.d $in -o $out", "  depfile = $out.d", "  deps = gcc"]
    inc = "-I%s -I/usr/include/eigen3" % SRC
    done = set()

    def cc(src, obj, flags):
        if obj not in done:
            done.add(obj)
            out.append("build %s: cc %s" % (obj, src))
            out.append("  flags = %s" % flags)
        return obj

    defaults = []
    for i in ids:
        h = "%s/harness/%s.cpp" % (ROOT, i)
        d = head(h)
        prof = d["profile"]
        lf, hf, kf = PROFILES[prof]
        extra = d["flags"].replace(",", " ")
        lib_extra = d["libflags"].replace(",", " ")
        tag = prof + (("_" + re.sub(r"\W", "", lib_extra)) if lib_extra else "")
        mods = []
        for m in d["mods"].split(","):
            if m:
                for x in [m] + DEPS[m]:
                    if x not in mods:
                        mods.append(x)
        objs = [cc(h, "%s/h/%s.o" % (BUILD, i), " ".join([BASE, hf, DEFS, inc, extra, "-I%s/harness" % ROOT])),
                cc(ROOT + "/harness/vp.cpp", BUILD + "/h/vp.o", BASE + " -O1")]
        for e in [e for e in d["extra"].split(",") if e]:
            objs.append(cc("%s/harness/%s" % (ROOT, e), "%s/h/%s_%s.o" % (BUILD, e.replace("/", "_"), prof),
                           " ".join([BASE, hf, DEFS, inc, "-I%s/harness" % ROOT])))
        for m in mods:
            for s in sources(m):
                objs.append(cc(s, "%s/%s/%s_%s.o" % (BUILD, tag, m, os.path.basename(s)[:-4]),
                               " ".join([BASE, "-fPIC", lf, lib_extra, DEFS, inc])))
        wraps = " ".join("-Wl,--wrap=" + w for w in d["wrap"].split(",") if w)
        if d["wrap"].startswith("@"):
            names = [l.strip() for l in open("%s/harness/%s" % (ROOT, d["wrap"][1:])) if l.strip() and not l.startswith("#")]
            wraps = " ".join("-Wl,--wrap=" + w for w in names)
        exe = "%s/bin/%s" % (BUILD, i)
        out.append("build %s: link %s" % (exe, " ".join(objs)))
        out.append("  flags = %s %s %s %s -rdynamic" % (kf, wraps, d["libs"].replace(",", " "), LIBS))
        defaults.append(exe)
        for pl in [p for p in d["plugins"].split(",") if p]:  # name:MACRO
            so = "%s/plugins/%s.so" % (BUILD, pl.replace(":", "_"))
            if so not in done:
                done.add(so)
                out.append("build %s: so %s/harness/%s.cpp" % (so, ROOT, pl.split(":")[0]))
                out.append("  flags = %s" % " ".join([BASE, "-O1 -fno-gnu-unique", "-D" + pl.split(":")[-1], DEFS, inc, "-I%s/harness" % ROOT]))
            defaults.append(so)
    out.append("default " + " ".join(defaults))
    open(nf, "w").write("\n".join(out) + "\n")
    r = subprocess.run(["ninja", "-C", BUILD, "-f", nf, "--quiet"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write("\n".join(l for l in r.stdout.split("\n") if not l.startswith("g++ "))[-4000:])
    return r.returncode


if __name__ == "__main__":
    sys.exit(main())
