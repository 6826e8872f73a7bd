"""Runner support: obligations, known findings, evidence, replay files."""
import json, os, sys, time, importlib, pickle, selectors, traceback
from . import ir
from .ir import Broken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier, prog, eff):
        self.pid, self.tier, self.prog, self.eff = pid, tier, prog, eff
        self.obs = []            # (status, rule, where, detail)
        self.bads = []
        self.fns = set()
        self.notes = []
        self.rules = {}
        self.jobs = None         # groups of obligations left for spread()

    def rule(self, name, text):
        self.rules[name] = text

    def at(self, f, line=None):
        """file:line (function) of a function record or id"""
        if isinstance(f, str):
            f = self.prog.fn.get(f) or {"file": "?", "l": 0, "n": f}
        self.fns.add(f.get("id", f["n"]))
        return "%s:%s (%s)" % (os.path.relpath(f["file"], self.prog.repo) if f.get("file", "?").startswith("/") else f.get("file"), line or f.get("l"), f["n"])

    def ok(self, rule, where, detail=""):
        self.obs.append(("held", rule, where, detail))

    def und(self, rule, where, detail=""):
        self.obs.append(("undecided", rule, where, str(detail)[:400]))

    def bad(self, rule, key, where, msg):
        self.obs.append(("violated", rule, where, msg[:1500]))
        self.bads.append({"rule": rule, "key": key, "where": where, "message": msg})

    def each(self, rule, where, fn, *a):
        """runs one group of obligations; an analysis limit leaves it undecided"""
        from .vals import Unknown, reset_budget
        if self.jobs is not None:
            self.jobs.append((rule, where, fn) + a)
            return
        reset_budget()
        try:
            return fn(*a)
        except Broken:
            raise
        except Unknown as u:
            self.und(rule, where, "outside the analysis domain: %s" % u)
        except Exception:
            self.und(rule, where, traceback.format_exc()[-380:])
            if os.environ.get("HB_VERBOSE"):
                sys.stderr.write(traceback.format_exc())

    def spread(self, jobs):
        """runs groups of obligations as each() does, over the processors; the order is kept"""
        jobs, self.jobs = list(jobs), None
        n = min(len(jobs), int(os.environ.get("HB_JOBS", 0)) or len(os.sched_getaffinity(0)))
        if n < 2 or not hasattr(os, "fork"):
            for j in jobs:
                self.each(*j)
            return
        sys.stdout.flush()
        sys.stderr.flush()
        sel = selectors.DefaultSelector()
        data, got, broken = {}, {}, []
        wait = list(range(len(jobs)))[::-1]
        # one process per group, so that no group depends on what was looked at before
        while wait or sel.get_map():
            while wait and len(sel.get_map()) < n:
                i = wait.pop()
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        self.obs, self.bads, self.fns, self.notes = [], [], set(), []
                        stop = None
                        try:
                            self.each(*jobs[i])
                        except Broken as e:
                            stop = str(e)
                        with os.fdopen(w, "wb") as out:
                            pickle.dump((self.obs, self.bads, self.fns, self.notes, stop), out)
                    finally:
                        os._exit(0)
                os.close(w)
                sel.register(r, selectors.EVENT_READ, (i, pid))
                data[i] = []
            for key, ev in sel.select():
                i, pid = key.data
                b = os.read(key.fd, 1 << 20)
                if b:
                    data[i].append(b)
                    continue
                sel.unregister(key.fd)
                os.close(key.fd)
                os.waitpid(pid, 0)
                try:
                    got[i] = pickle.loads(b"".join(data.pop(i)))
                except Exception:
                    pass
        for i, j in enumerate(jobs):
            if i not in got:
                self.und(j[0], j[1], "the analysis of this group ended early")
                continue
            obs, bads, fns, notes, b = got[i]
            self.obs += obs
            self.bads += bads
            self.fns |= fns
            self.notes += notes
            if b:
                broken.append(b)
        if broken:
            raise Broken(broken[0])

    def flush(self):
        """runs the groups gathered by each() so far"""
        jobs, self.jobs = self.jobs or [], None
        try:
            self.spread(jobs)
        finally:
            self.jobs = []

    def check(self, cond, rule, key, where, msg):
        """cond: True held / False violated / None undecided"""
        if cond is None:
            self.und(rule, where, msg)
        elif cond:
            self.ok(rule, where)
        else:
            self.bad(rule, key, where, msg)


def known():
    out = {}
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property="):
                head, _, text = l[len("known: "):].partition(" key=")
                pid = head.split("=", 1)[1].strip()
                key, _, text = text.partition(" :: ")
                out.setdefault(pid, {})[key.strip()] = text.strip()
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    sys.setrecursionlimit(20000)
    try:
        prog = ir.load()
        from .effects import Effects
        eff = Effects(prog)
        ctx = Ctx(pid, tier, prog, eff)
        mod = importlib.import_module("hb.checks.%s" % pid.lower())
        try:
            ctx.jobs = []
            mod.run(ctx)
            ctx.flush()
        except Broken:
            raise
        except Exception:
            # an internal limit of the analysis: what is left is undecided, what was decided stands
            ctx.und("analysis", "?", traceback.format_exc()[-380:])
            sys.stderr.write(traceback.format_exc())
    except Broken as b:
        print("BROKEN: the analysis of %s could not be carried out: %s" % (pid, b))
        return 2
    st = {}
    for s, r, w, d in ctx.obs:
        st.setdefault(r, {}).setdefault(s, 0)
        st[r][s] += 1
    held = sum(1 for o in ctx.obs if o[0] == "held")
    und = sum(1 for o in ctx.obs if o[0] == "undecided")
    kf = known().get(pid, {})
    new, listed = [], []
    seen = set()
    for b in ctx.bads:
        if (b["rule"], b["key"]) in seen:
            continue
        seen.add((b["rule"], b["key"]))
        (listed if b["key"] in kf else new).append(b)
    if not held and not ctx.bads:
        print("BROKEN: nothing was decided for %s" % pid)
        for o in ctx.obs[:20]:
            print("  ", o)
        return 2
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    lvl = manifest_level(pid)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": lvl,
        "coverage": {
            "explanation": "Static analysis of /repo/core/src (%d functions, %d classes extracted with the clang front end from the current tree). Obligations: %d held, %d violated (%d of them listed as known findings), %d undecided (outside the analysis domain: no alarm)." % (
                len(prog.fn), len(prog.cls), held, len(ctx.bads), len(listed), und),
            "rules": ctx.rules,
            "obligations_by_rule": st,
            "obligations": held + und + len(ctx.bads),
            "functions_analysed": sorted(ctx.fns)[:400],
            "functions_analysed_count": len(ctx.fns),
            "obligation_list": [{"status": s, "rule": r, "where": w, "detail": d[:200]} for s, r, w, d in ctx.obs[:600]],
            "violations_found": [{"rule": b["rule"], "where": b["where"], "message": b["message"][:1000]} for b in ctx.bads],
            "notes": ctx.notes[:50],
        },
        "violations": len(new),
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "The clang AST of the release configuration (NDEBUG) of core/src is what runs; the standard library, Eigen, netCDF and yaml-cpp behave as documented.",
            "Floating point rounding is not modelled: values are compared as exact real expressions."],
        "wall_s": round(time.time() - t0, 2),
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for b in listed:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kf[b["key"]], b["where"]))
    print("%s: %d obligations held, %d undecided, %d violated, %.1fs" % (pid, held, und, len(ctx.bads), time.time() - t0))
    if tier == "thorough" or os.environ.get("HB_VERBOSE"):
        for o in ctx.obs:
            if o[0] != "held" or os.environ.get("HB_VERBOSE") == "2":
                print("  ", o)
    if new:
        rp = os.path.join(ROOT, "evidence", "replay-%s.txt" % pid)
        with open(rp, "w") as f:
            f.write("property %s\nreproduce: cd /verif && python3 check.py %s\n\n" % (pid, pid))
            for b in new:
                f.write("%s\n  rule: %s\n  %s\n\n" % (b["where"], b["rule"], b["message"]))
        for b in new[:8]:
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  at %s\n  rule %s [key=%s]\n  %s" % (b["where"], b["rule"], b["key"], b["message"][:1500]))
        return 1
    return 0


def manifest_level(pid):
    try:
        m = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
        for c in m["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return "other"
