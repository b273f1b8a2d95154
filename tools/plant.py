"""Confirms a planted bug in a scratch copy and keeps it: see seeded/. Not used by any check.
plant(id, property, needs, what, edits=[(file, old, new)], demo=C++ text, libs=...)"""
import json, os, subprocess, shutil, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("PLANT_TREE", "/tmp/p")
BASE = "61d5888"
ENV = dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC", CC="gcc", CXX="g++")
DEMO_SH = r'''#!/bin/bash
# Runs in the repository's directory after its build: 0 if the property holds here, otherwise the bug is there.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'find "$t" -delete' EXIT
g++ -std=c++17 -w -O1 -D_SYSTEM_POSIX_ -D_SYSTEM_LINUX_ -D_SYSTEM_IDENTIFIER_=x86_64.Linux -D_IC_BUILDER_DEPRECATED_STYLE_ \
  -DTIXML_USE_STL -D_IC_BUILDER_ENABLE_BASE_TYPES_ -DBOOST_ALL_NO_LIB -DBOOST_DYN_LINK -D_IC_BUILDER_BOOST_ \
  -D_IC_BUILDER_BOOST_DATE_TIME_ -D_IC_BUILDER_BOOST_REGEX_ -D_IC_BUILDER_BOOST_FILESYSTEM_ -D_IC_BUILDER_HAS_TIME_H_ \
  -D_IC_BUILDER_HAS_SYS_TIME_H_ -D_IC_BUILDER_ZLIB_ -D_IC_BUILDER_TINYXML_ -D_IC_BUILDER_EIGEN_ -D_IC_BUILDER_EIGEN3_ %(defs)s \
  -Isrc/icl_core/src -I/usr/include/eigen3 "$here/demo.cpp" -o "$t/demo" -L_build/lib %(libs)s \
  -lboost_regex -lboost_filesystem -lboost_system -lboost_date_time -lpthread -ldl -lz || exit 3
cd "$t" && LD_LIBRARY_PATH="$OLDPWD/_build/lib" timeout 120 ./demo
'''
ALL = "-licl_core_performance_monitor -licl_core_dispatch -licl_core_plugin -licl_core_thread -licl_core_logging -licl_core_config -licl_core -ltinyxml"


def sh(cmd, cwd=W, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=ENV, **k)


def build():
    r = sh("ninja -C _build 2>&1 | tail -30; exit ${PIPESTATUS[0]}", executable="/bin/bash")
    return r.returncode == 0, r.stdout


def sync():
    head = sh("git rev-parse HEAD", cwd="/repo").stdout.strip()
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD")
    assert sh("git rev-parse HEAD").stdout.strip() == head, "scratch copy is not at HEAD"


def tests():
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    sh("python3 /opt/vp/run_boost_tests.py /tmp/plant_rep.txt bin/ts_*", cwd=W + "/_build")
    sh("python3 /opt/vp/results.py /tmp/plant_out.json lines:/tmp/plant_rep.txt", cwd=W + "/_build")
    got = set(json.load(open("/tmp/plant_out.json"))["passed"])
    return sorted(want - got)


def plant(id, prop, needs, what, edits, demo, libs=ALL, defs="", retry=1):
    d = "%s/seeded/%s" % (ROOT, id)
    sync()
    for f, old, new in edits:
        p = W + "/" + f
        t = open(p, encoding="utf-8", errors="surrogateescape").read()
        if t.count(old) != 1:
            print(id, "FAILED: text found %d times in %s" % (t.count(old), f)); sync(); return False
        open(p, "w", encoding="utf-8", errors="surrogateescape").write(t.replace(old, new))
    diff = subprocess.run("git diff", shell=True, cwd=W, capture_output=True).stdout
    # changed lines are the original repository's
    ok = False
    for f in set(e[0] for e in edits):
        for h in re.findall(r"@@ -(\d+)(?:,(\d+))? ", sh("git diff -U0 -- " + f).stdout):
            n = int(h[1]) if h[1] else 1
            for i in range(n):
                ln = int(h[0]) + i
                b = sh("git blame -s -l -L %d,%d HEAD -- %s" % (ln, ln, f)).stdout
                if not b.lstrip("^").startswith(BASE):
                    print(id, "FAILED: line %d of %s is not original: %s" % (ln, f, b[:60])); sync(); return False
                ok = True
    if not ok:
        print(id, "note: only adds lines")
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO_SH % dict(libs=libs, defs=defs))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    res = {}
    b, o = build()
    if not b:
        print(id, "FAILED: does not build\n" + o)
    else:
        miss = tests()
        if miss:
            print(id, "FAILED: tests fail:", miss)
        r1 = sh("bash %s/demo.sh" % d)
        sh("git checkout -q -- .")
        b2, o = build()
        r0 = sh("bash %s/demo.sh" % d)
        good = not miss and r0.returncode == 0 and r1.returncode != 0
        print(id, "ok" if good else "FAILED", "demo unchanged: %d, patched: %d" % (r0.returncode, r1.returncode))
        if r0.returncode:
            print(r0.stdout[-1500:], r0.stderr[-3000:])
        print("   with the bug:", (r1.stdout + r1.stderr).strip()[-300:].replace("\n", " | "))
        if good:
            return True
    sh("git checkout -q -- .")
    shutil.rmtree(d)
    return False


def caught(id):
    """Runs the check of the bug's property against the patched scratch copy."""
    d = "%s/seeded/%s" % (ROOT, id)
    prop = json.load(open(d + "/meta.json"))["property"]
    sync()
    r = sh("git apply %s/patch.diff" % d)
    assert r.returncode == 0, r.stderr
    try:
        r = subprocess.run(["./check", prop], cwd=ROOT, capture_output=True, text=True,
                           env=dict(os.environ, VP_REPO=W, VP_BUILD="/tmp/mb", VP_EVIDENCE="/tmp/mb/ev"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
        msg = r.stdout.strip().splitlines()
        print(id, prop, "CAUGHT" if r.returncode == 1 and v else "MISSED (exit %d)" % r.returncode, "|", " ".join(msg[-3:])[:300])
        return r.returncode == 1 and bool(v)
    finally:
        sh("git checkout -q -- .")


if __name__ == "__main__":
    import sys
    for i in sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded")):
        caught(i)
