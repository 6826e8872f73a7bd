"""Runs the extractor over every C++ source under /repo/core/src and merges the facts.

Sources are parsed in a few unity groups for speed; a group that does not parse
cleanly (for instance because two files define the same file-local name) is
parsed again file by file.  A file that does not parse at all makes the analysis
broken, never a pass."""
import json, os, subprocess, sys, tempfile, hashlib, shutil, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("HB_REPO", "/repo")
HBX = os.path.join(VERIF, "build", "hbx")


class Broken(Exception):
    """The analysis itself cannot be carried out (never a verdict)."""


def flags(repo):
    src = os.path.join(repo, "core", "src")
    inc = ["-I" + os.path.join(src, d) for d in sorted(os.listdir(src)) if os.path.isdir(os.path.join(src, d))]
    return (["-std=c++23", "-fsyntax-only", "-D__cpp_concepts=202002L", "-Wno-everything",
             "-DNDEBUG", "-DHYDROBRICKS_MAJOR_VERSION=0", "-DHYDROBRICKS_MINOR_VERSION=0",
             "-DHYDROBRICKS_PATCH_VERSION=0"] + inc +
            ["-isystem", "/usr/include/eigen3", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"])


def sources(repo):
    src = os.path.join(repo, "core", "src")
    out = []
    for d, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(".cpp"):
                out.append(os.path.join(d, f))
    return sorted(out)


def run_hbx(repo, out, srcs):
    cmd = [HBX, "--root", os.path.join(os.path.realpath(repo), "core", "src") + "/", "--out", out] + srcs + ["--"] + flags(repo)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return p.returncode, p.stderr


def extract(repo=None):
    repo = repo or REPO
    if not os.path.exists(HBX):
        subprocess.run([os.path.join(VERIF, "extract", "build.sh")], check=True)
    srcs = sources(repo)
    if not srcs:
        raise Broken("no sources found under %s/core/src" % repo)
    n = 8
    # big files first, round robin: balanced groups
    order = sorted(srcs, key=lambda p: (-os.path.getsize(p), p))
    groups = [order[i::n] for i in range(n)]
    tmp = tempfile.mkdtemp(prefix="hbx_")
    try:
        def job(i):
            g = groups[i]
            u = os.path.join(tmp, "unity%d.cpp" % i)
            with open(u, "w") as f:
                for s in g:
                    f.write('#include "%s"\n' % s)
            o = os.path.join(tmp, "u%d.json" % i)
            rc, err = run_hbx(repo, o, [u])
            if rc == 0:
                return [o], []
            outs, bad = [], []
            for k, s in enumerate(g):
                o = os.path.join(tmp, "u%d_%d.json" % (i, k))
                rc, err = run_hbx(repo, o, [s])
                if rc != 0:
                    bad.append((s, err[:2000]))
                else:
                    outs.append(o)
            return outs, bad
        merged = {"functions": [], "classes": [], "enums": [], "globals": [], "srcs": [os.path.relpath(s, repo) for s in srcs]}
        seen = {"functions": set(), "classes": set(), "enums": set(), "globals": set()}
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(job, range(n)))
        bad = [b for _, bs in res for b in bs]
        if bad:
            raise Broken("source does not parse: %s\n%s" % bad[0])
        for outs, _ in res:
            for o in outs:
                d = json.load(open(o))
                for k in seen:
                    for it in d[k]:
                        key = it["id"] if k == "functions" else it["n"]
                        if key in seen[k]:
                            continue
                        seen[k].add(key)
                        merged[k].append(it)
        return merged
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    import time
    t = time.time()
    m = extract(sys.argv[1] if len(sys.argv) > 1 else None)
    json.dump(m, open("/tmp/facts.json", "w"))
    print({k: len(v) for k, v in m.items()}, time.time() - t)
