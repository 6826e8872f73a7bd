#!/usr/bin/env python3
"""mkseed.py SPEC.. : builds /verif/seeded/<id>/ from a spec and confirms it in the scratch copy
/tmp/seedw/repo (built by seed_init): patch applies, builds, stable tests pass, demo 0 without and
nonzero with the patch; then runs the property's check on the patched tree.
SPEC: '# id property' / 'needs: ..' / 'breaks: ..' / blocks 'file' '<<<' old '===' new '>>>' / '--- demo' C++."""
import sys, os, re, json, subprocess, shutil
W = "/tmp/seedw"
R = W + "/repo"
DEMO = '''#!/bin/bash
# run with cwd at the repository root, after a build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
inc=""
for i in base actions bricks containers fluxes processes spatial; do inc="$inc -Icore/src/$i"; done
g++ -std=c++23 -w -O0 -DNDEBUG $inc -isystem /usr/include/eigen3 -Icore/tests/src "$d/demo.cpp" core/tests/src/helpers.cpp _build/core/src/libcore.a -lnetcdf -lyaml-cpp -o "$t/demo" || exit 99
cd "$t" && timeout 120 ./demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build():
    p = sh("bash %s/build.sh" % W)
    return p.returncode == 0, p.stdout[-3000:]
for spec in sys.argv[1:]:
    t = open(spec).read()
    sid, prop = re.match(r"# (\S+) (\S+)", t).groups()
    head, demo = t.split("--- demo\n")
    needs = re.search(r"^needs: (.*)$", t, re.M).group(1)
    brk = re.search(r"^breaks: (.*)$", t, re.M).group(1)
    d = "/verif/seeded/" + sid
    sh("git -C %s checkout -- ." % R)
    bad = False
    for m in re.finditer(r"^(\S+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>", head, re.S | re.M):
        f, old, new = m.groups()
        src = [os.path.join(a, x) for a, _, fs in os.walk(R + "/core/src") for x in fs if os.path.join(a, x).endswith("/" + f)]
        assert len(src) == 1, (f, src)
        s = open(src[0]).read()
        if s.count(old) != 1:
            print(sid, "NO/AMBIGUOUS MATCH", s.count(old), f, old[:60]); bad = True; break
        open(src[0], "w").write(s.replace(old, new))
    if bad:
        continue
    os.makedirs(d, exist_ok=True)
    diff = sh("git -C %s diff" % R).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    if '"common.h"' in demo:
        shutil.copy("/tmp/seeds/common.h", d + "/common.h")
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": brk}, open(d + "/meta.json", "w"), indent=1)
    ok, log = build()
    if not ok:
        print(sid, "BUILD FAILS", log); sh("git -C %s checkout -- ." % R); continue
    sh("bash %s/test.sh %s/out.json" % (W, W))
    out = json.load(open(W + "/out.json"))
    stable = set(json.load(open(W + "/BASELINE.json"))["stable"])
    lost = stable - set(out.get("passed", []))
    p = sh("bash %s/demo.sh" % d, cwd=R)
    with_ = p.returncode
    msg = (p.stdout + p.stderr)[-400:]
    c = sh("python3 /verif/check.py %s" % prop, env=dict(os.environ, HB_REPO=R), cwd="/verif")
    sh("git -C %s checkout -- ." % R)
    build()
    q = sh("bash %s/demo.sh" % d, cwd=R)
    good = not lost and with_ not in (0, 99) and q.returncode == 0
    viol = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "  rule"))][:2]
    print("%s %s %s: demo with=%d without=%d lost=%s check rc=%d %s" % ("GOOD" if good else "BAD ", sid, prop, with_, q.returncode, sorted(lost)[:5], c.returncode, viol))
    if not good:
        print("   with:", msg, " without:", (q.stdout + q.stderr)[-400:])
