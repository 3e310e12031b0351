"""Development aid: make and verify planted bugs (not used by any check).

  plant.make(id, [(file, old, new)...], property, needs, breaks, demo_cpp)
  python3 -m vlib.plant verify ID...   build+tests+demo with and without, then the check
"""
import difflib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
R = "/repo"

DEMO = r'''#!/bin/bash
# cwd: the repository after its build.  Exit 0: the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
I=""
for d in include include/cn24 include/cn24/util include/cn24/net include/cn24/math include/cn24/factory include/private; do I="$I -I$repo/$d"; done
g++ -std=c++11 -w -O1 -DBUILD_POSIX -DBUILD_LINUX -DBUILD_PNG -DBUILD_JPG $I "$here/demo.cpp" -o "$t/demo" \
  -L"$repo/_build" -lcn24 -Wl,-rpath,"$repo/_build" || exit 3
cd "$t" && timeout 120 ./demo >out.txt 2>&1
rc=$?
tail -n 5 out.txt
exit $rc
'''


def make(pid, edits, prop, needs, breaks, demo, demo_sh=None):
    d = os.path.join(S, pid)
    os.makedirs(d, exist_ok=True)
    out = ""
    files = {}
    for f, old, new in edits:
        src = files.get(f) or (open(os.path.join(R, f), newline="").read(),) * 2
        assert src[1].count(old) == 1, (f, src[1].count(old), old)
        files[f] = (src[0], src[1].replace(old, new))
    for f, (a, b) in files.items():
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w", newline="").write(out)
    open(os.path.join(d, "demo.sh"), "w").write(demo_sh or DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if demo:
        open(os.path.join(d, "demo.cpp"), "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    sh("bash /opt/vp/test.sh /tmp/pl/t.json")
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = json.load(open("/tmp/pl/t.json"))
    def passed(x):
        return set(x.get("passed", x.get("stable", []))) if isinstance(x, dict) else set()
    return len(passed(r)), r


def verify(ids, checks=True):
    os.makedirs("/tmp/pl", exist_ok=True)
    assert not sh("git -C /repo status --porcelain -uno").stdout.strip()
    b = sh("bash /opt/vp/build.sh")
    assert b.returncode == 0, b.stdout[-2000:]
    clean = {}
    for i in ids:
        p = sh("bash %s/%s/demo.sh" % (S, i), cwd=R, timeout=300)
        clean[i] = p.returncode
        if p.returncode:
            print(i, "DEMO FAILS CLEAN", p.stdout[-1500:])
    for i in ids:
        try:
            a = sh("git -C /repo apply %s/%s/patch.diff" % (S, i))
            if a.returncode:
                print(i, "APPLY", a.stdout); continue
            b = sh("bash /opt/vp/build.sh")
            if b.returncode:
                print(i, "BUILD FAILS", b.stdout[-2000:]); continue
            n, _ = tests()
            p = sh("bash %s/%s/demo.sh" % (S, i), cwd=R, timeout=300)
            line = "%s tests=%d demo clean=%d patched=%d (%s)" % (i, n, clean[i], p.returncode, p.stdout.strip().splitlines()[-1:] )
            if checks:
                pr = json.load(open("%s/%s/meta.json" % (S, i)))["property"]
                c = sh("VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s" % pr, cwd=V)
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                line += " check %s rc=%d %s" % (pr, c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED")
            print(line, flush=True)
        finally:
            sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")


if __name__ == "__main__":
    if sys.argv[1] == "verify":
        verify(sys.argv[2:])
