#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE SRCS NEEDS BREAKS < edits(JSON [[old,new],...]) + demo.cpp path in $DEMO
Makes /verif/seeded/ID from an edit of FILE and a demo program; nothing is written to /repo."""
import sys, os, json, subprocess, tempfile, shutil
def make(sid, prop, edits, demo, srcs, needs, breaks, shim=None, extra_flags="", files=()):
    d = "/verif/seeded/" + sid
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed-")
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in edits:
        p = w + "/r/" + f
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    open(d + "/demo.cpp", "w").write(demo)
    if shim:
        shutil.rmtree(d + "/shim", ignore_errors=True)
        shutil.copytree(shim, d + "/shim")
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: behaves; nonzero: broken. Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d); trap 'rm -rf -- "$W"' EXIT
printf '#define HAVE_DLFCN_H 1\\n#define HAVE_UNISTD_H 1\\n#define HAVE_SYS_TYPES_H 1\\n#define HAVE_SYS_STAT_H 1\\n#define HAVE_SYS_SELECT_H 1\\n#define HAVE_SYS_SOCKET_H 1\\n#define PACKAGE "metaproxy"\\n#define VERSION "0"\\n#define VERSION_SHA1 ""\\n' > "$W/config.hpp"
g++ -std=gnu++17 -g -O1 -w %s -DYAZ_POSIX_THREADS=1 -DYAZ_HAVE_XML2=1 -DYAZ_HAVE_XSLT=1 -DYAZ_HAVE_EXSLT=1 -I/usr/include/libxml2 -I"$W" %s-I"$R/include" -I"$R/src" \\
    -o "$W/demo" "$D/demo.cpp" %s -lyaz -lxml2 -lxslt -lexslt -lboost_regex -lboost_thread -lboost_system -lpthread -ldl || exit 3
cd "$W" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
""" % (extra_flags, '-I"$D/shim" ' if shim else "", " ".join('"$R/src/%s.cpp"' % s for s in srcs) + "".join(' "$D/%s"' % f for f in files)))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
def test(sid):
    """patched copy: build, tests, demo; unpatched demo"""
    d = "/verif/seeded/" + sid
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        t = subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seedt.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res = json.load(open("/tmp/seedt.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        missing = [s for s in stable if s not in res["passed"]]
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        prop = json.load(open(d + "/meta.json"))["property"]
        c = subprocess.run([sys.executable, "/verif/check.py", prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    good = r0.returncode == 0 and r1.returncode not in (0,) and not missing
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    print(sid, prop, "COUNTS" if good else "BAD(demo0=%s demo1=%s missing=%s)" % (r0.returncode, r1.returncode, missing), "CAUGHT" if c.returncode == 1 and v else "MISSED rc=%d" % c.returncode, v[:1], flush=True)
    if not good: print(r0.stdout[-800:], r1.stdout[-800:], t.stdout[-500:] if missing else "")
    if c.returncode != 1: print(c.stdout[-800:])
if __name__ == "__main__":
    for s in sys.argv[1:] or sorted(os.listdir("/verif/seeded")):
        test(s)
