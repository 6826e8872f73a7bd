#!/usr/bin/env python3
"""mut.py [-j N] MUTFILE [ids]: applies each mutation to a scratch copy and runs checks there.
MUTFILE: blocks 'ID[,ID..] file [quiet]' newline '<<<' old '===' new '>>>'."""
import sys, os, re, subprocess, shutil, threading, queue
av = sys.argv[1:]
jobs = 6
if av[0] == "-j":
    jobs = int(av[1])
    av = av[2:]
t = open(av[0]).read()
only = av[1:]
tag = os.path.basename(av[0])
q = queue.Queue()
for m in re.finditer(r"^([A-Z0-9,]+) (\S+)( [^\n]*)?\n<<<\n(.*?)\n===\n(.*?)\n?>>>", t, re.S | re.M):
    ids = m.group(1).split(",")
    if only and not set(only) & set(ids):
        continue
    q.put((ids, m.group(2), (m.group(3) or "").strip(), m.group(4), m.group(5)))
res = [0, 0]
lock = threading.Lock()


def work(i):
    base = "/tmp/mr/%s-%d" % (tag, i)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    for d in ("core", "python"):
        if os.path.isdir(os.path.join(os.environ.get("MUT_BASE", "/repo"), d)):
            shutil.copytree(os.path.join(os.environ.get("MUT_BASE", "/repo"), d), base + "/" + d, symlinks=True)
    while True:
        try:
            ids, f, exp, old, new = q.get_nowait()
        except queue.Empty:
            break
        src = [os.path.join(d, x) for d, _, fs in os.walk(base) for x in fs if os.path.join(d, x).endswith("/" + f)]
        if len(src) != 1:
            print("FILE?", f, src)
            continue
        s = open(src[0]).read()
        if s.count(old) < 1:
            print("NO MATCH", f, old[:80])
            continue
        open(src[0], "w").write(s.replace(old, new, 1))
        for k in ids:
            p = subprocess.run(["python3", "/verif/check.py", k], env=dict(os.environ, HB_REPO=base), capture_output=True, text=True, cwd="/verif")
            good = p.returncode == (0 if exp == "quiet" else 1)
            msg = [l for l in p.stdout.splitlines() if l.startswith("  rule")]
            with lock:
                res[1] += 1
                res[0] += good
                print("%s %s %s rc=%d %s" % ("ok  " if good else "MISS", k, f + ": " + " ".join(old.split())[:50] + " -> " + " ".join(new.split())[:70], p.returncode, [x[:300] for x in msg[:1]]), flush=True)
                if p.returncode not in (0, 1):
                    print(p.stdout[-1500:], p.stderr[-1500:])
        open(src[0], "w").write(s)
    shutil.rmtree(base, ignore_errors=True)


ths = [threading.Thread(target=work, args=(i,)) for i in range(min(jobs, q.qsize()))]
for x in ths:
    x.start()
for x in ths:
    x.join()
print("%d/%d" % tuple(res))
