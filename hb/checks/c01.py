"""C01: a reset model starts again from exactly its initial state.

Part one, per process kind: every field of the process and its outputs that running may
write is given an unknown value, the process is reset, and its rates (several steps in a
row) have to be those of a process that has never run.

Part two, per model structure: the whole model is put together by evaluating the settings,
basin and builder code; every number and switch that ModelHydro::Run may write (effect
analysis over the call graph) is replaced by an unknown value everywhere in the model, the
model is reset, and the run that follows has to start from the same storages, flux amounts,
fractions, weights, forcing, dates, records and due actions, and compute the same rates, as
the first one. An unknown value that survives anywhere it is looked at is reported."""
from .. import vals as V, procs
from ..vals import mk, obj, num, nat, TRUE, FALSE
from ..scene import *
from ..bench import Missing
from ..structures import Built, STRUCTURES
from ..ir import Broken, strip_ty, elem_type

ASSUMPTIONS = ["The structures in hb/structures.py, with every registered process kind on its own, stand for all.",
               "The number of entries of a store or list does not change during a run; parameter values changed on schedule are the user's.",
               "The log file state is not part of the model."]
FIXED = {"maxbas": "2.5", "uh_base_time": "1.25"}       # the lengths of the unit hydrographs
DIRT = "left over:"
TOTALS = ("GetOutletDischarge", "GetTotalOutletDischarge", "GetTotalET", "GetTotalWaterStorageChanges", "GetTotalSnowStorageChanges", "GetTotalGlacierStorageChanges")


def run_writes(ctx):
    roots = [fid for fid, f in ctx.prog.fn.items() if f["n"] == "ModelHydro::Run" and f.get("body")]
    if not roots:
        raise Broken("ModelHydro::Run not found")
    w = set()
    for r in roots:
        w |= set(ctx.eff.writes(r))
    return w


def soiled(v, tag):
    """the value with every number in it unknown; None when there is none"""
    if v.k == "num":
        if v == nat(("nan",)):
            return None
        return nat(("name", DIRT + tag))
    if v.k == "bool" or v in (TRUE, FALSE):
        return V.lt(nat(("name", DIRT + tag)), num(0))
    if v.k == "vec":
        vs = [soiled(x, "%s[%d]" % (tag, i)) for i, x in enumerate(v.a)]
        return mk("vec", *[x if y is None else y for x, y in zip(v.a, vs)]) if any(y is not None for y in vs) else None
    if v.k == "ite":
        return nat(("name", DIRT + tag))
    return None


def dirty(v):
    """the leftovers a value depends on"""
    out, seen, todo = set(), set(), [v]
    while todo:
        x = todo.pop()
        if hasattr(x, "k"):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.k == "num":
                for m, c in x.a[0]:
                    for a, e in m:
                        d = V.atom_desc(a)
                        if d[0] == "name" and str(d[1]).startswith(DIRT):
                            out.add(d[1][len(DIRT):])
                        else:
                            todo.append(d)
            else:
                todo += list(x.a)
        elif isinstance(x, (tuple, list)):
            todo += list(x)
    return out


def fields_of(p, cls):
    for c in [cls] + [b for b in p.bases(cls) if b != cls]:
        for f in p.cls[c]["fields"]:
            yield f


# ---------------------------------------------------------------- per process kind
def kind(ctx, reg, typ, bcls, W):
    pr = procs.build(ctx, reg, typ, bcls, names={k: num(v) for k, v in FIXED.items()})
    if pr.cls is None:
        ctx.und("process", typ, "the process is not created")
        return
    procs.prepare(ctx, pr)
    sc = pr.sc
    where = ctx.at(procs.method(ctx, pr.cls, "Reset") or "?")
    base = sc.st.copy()

    def record(st, n=3):
        sc.st = st.copy()
        out = []
        for i in range(n):
            if i:
                f = procs.method(ctx, pr.cls, "Finalize")
                if f is not None:
                    sc.inline(f, pr.obj, [])
            out.append(procs.rates(pr))
        return out
    first = record(base)
    sc.st = base.copy()
    own = [pr.obj] + [o for o in sc.exact if o.a and any(x == pr.obj for x in o.a)]
    n = 0
    for o in own:
        for f in fields_of(ctx.prog, sc.exact[o]):
            l = mk("loc", "f", o, f["q"])
            if f["q"] not in W or f["ty"].strip().endswith(("*", "&")):
                continue
            v = sc.st.s.get(l)
            if v is None:
                v = sc.load(l, f["ty"])
            x = soiled(v, f["q"])
            if x is None and v.k == "obj" and strip_ty(f["ty"]).startswith(("std::vector", "Eigen::")):
                x = obj("filled", sc.size_of(v), nat(("name", DIRT + f["q"])))
            if x is not None:
                sc.st.s[l] = x
                n += 1
    procs.call(pr, "Reset")
    again = record(sc.st)
    for i, (x, y) in enumerate(zip(first, again)):
        xs = x.a if x.k == "vec" else [x]
        ys = y.a if y.k == "vec" else [y]
        if len(xs) != len(ys):
            ctx.check(False if not dirty(y) else None, "process", "%s extent" % typ, where, "%s: the number of rates differs after a reset" % typ)
            continue
        for j, (p, q) in enumerate(zip(xs, ys)):
            key = "%s step %d rate %d" % (typ, i, j)
            what = "process kind %s: rate %d of step %d after a reset" % (typ, j + 1, i + 1)
            same(ctx, "process", key, where, p, q, what)


def same(ctx, rule, key, where, p, q, what):
    if p == q:
        ctx.ok(rule, key, where)
        return
    d = dirty(q)
    if p.k == "num" and q.k == "num" or p.k in ("num", "ite") and q.k in ("num", "ite"):
        apply_judge(ctx, rule, key, where, q, p, (), what + (" still depends on %s:" % ", ".join(sorted(d)[:3]) if d else " differs:"))
    elif d:
        ctx.check(False, rule, key, where, "%s still depends on %s" % (what, ", ".join(sorted(d)[:3])))
    elif p.k in ("obj", "vec", "map", "set", "enum", "null", "addr", "str") and q.k in ("obj", "vec", "map", "set", "enum", "null", "addr", "str"):
        ctx.check(False, rule, key, where, "%s is %s instead of %s" % (what, V.show(q)[:100], V.show(p)[:100]))
    else:
        ctx.und(rule, key, "not resolved")


# ------------------------------------------------------------- per model structure
class Watch:
    """what can be seen of a run: the state at its first step, its records, its actions"""

    def __init__(self, b, rates=True):
        self.b, self.out, self.steps, self.rates = b, {}, 0, rates
        self.lost = []

    def call(self, ev, e, n, recv, args, tgt):
        w = self.b.w
        if n.endswith("::ProcessTimeStep"):
            self.steps += 1
            if self.steps == 1:
                self.look()
            for i, l in enumerate(self.targets()):
                w.st.s[l] = nat(("name", "value %d of step %d" % (i, self.steps)))
            return TRUE
        if n.endswith("::WriteNetCDF"):
            self.out["written results"] = (mk("vec", *[w.load(a, "obj") if a.k == "loc" else a for a in args]), "?")
            return TRUE
        short = n.rsplit("::", 1)[-1]
        if short == "Apply" and recv is not None and w.exact.get(recv) and w.p.is_a(w.exact[recv], "Action"):
            k = "action %d at step %d" % (len([x for x in self.out if x.startswith("action")]) + 1, self.steps)
            self.out[k] = (mk("vec", recv, args[0] if args else num(0), *[w.st.s.get(mk("loc", "f", recv, f["q"]), num(0)) for f in self.b.fields(recv) if f["ty"] == "int"]), "?")
            return TRUE
        return None

    def put(self, k, v, where="?"):
        self.out[k] = (v, where)

    def look(self):
        b, w = self.b, self.b.w
        self.put("date of the first step", w.m(b.timer, "GetDate"))
        for pth, o in b.walk(b.model):
            c = w.exact.get(o)
            if c is None:
                continue
            nm_ = self.names.get(o) or pth
            if w.p.is_a(c, "WaterContainer"):
                for g in ("GetContentWithChanges", "GetContentWithoutChanges"):
                    self.put("%s of %s" % (g, nm_), w.m(o, g))
            elif w.p.is_a(c, "LandCover"):
                self.put("area fraction of %s" % nm_, w.m(o, "GetAreaFraction"))
            elif w.p.is_a(c, "Forcing"):
                self.put("value of forcing %s" % nm_, w.m(o, "GetValue"))
        for uid, br, pr in b.everything():
            for j, fl in enumerate(b.outputs(pr)):
                self.put("amount of output %d of %s.%s (unit %d)" % (j, b.nm(br), b.nm(pr), uid), w.m(fl, "GetAmount"))
        if not self.rates:
            return
        # what the processes and splitters compute from there
        s = b.snap()
        i = 0
        for pth, o in b.walk(b.sub):
            c = w.exact.get(o)
            if c and w.p.is_a(c, "WaterContainer"):
                i += 1
                fill(b, o, "store%d" % i)
        s1 = b.snap()
        rs = []
        for uid, br, pr in b.everything():
            deep = len(w.frames), len(w.loops), len(w.tries)
            try:
                rs.append(("rates of %s.%s (unit %d)" % (b.nm(br), b.nm(pr), uid), w.m(pr, "GetChangeRates")))
            except (V.Unknown, Missing) as u:
                del w.frames[deep[0]:], w.loops[deep[1]:], w.tries[deep[2]:]
                self.lost.append("%s.%s: %s" % (b.nm(br), b.nm(pr), u))
            b.back(s1)
        sps = [(sp, uid) for owner, uid in [(u, b.uid(u)) for u in b.units()] + [(b.sub, 0)] for sp in b.splitters(owner)]
        for sp, uid in sps:
            w.m(sp, "Compute")
        for sp, uid in sps:
            for pth, fl in b.all(sp, "Flux", owned=True):
                rs.append(("flux amount %s of splitter %s (unit %d)" % (pth, b.nm(sp), uid), w.m(fl, "GetAmount")))
        b.back(s)
        for k, v in rs:
            self.put(k, v)

    def targets(self):
        """the numbers the logger points to"""
        b, w, out = self.b, self.b.w, []
        for f in b.fields(b.logger):
            v = w.st.s.get(mk("loc", "f", b.logger, f["q"]))
            todo = [v] if v is not None else []
            while todo:
                x = todo.pop(0)
                if x.k == "vec":
                    todo = list(x.a) + todo
                elif x.k == "addr" and x.a[0] not in out:
                    out.append(x.a[0])
        return out

    def run(self):
        b, w = self.b, self.b.w
        old = w.hooks
        h = w.hooks.get("call")

        def call(*a):
            r = self.call(*a)
            return r if r is not None else h(*a) if h else None
        w.hooks = dict(w.hooks, call=call)
        try:
            r = w.m(b.model, "Run")
            for g in TOTALS:
                self.put(g, w.m(b.model, g))
            w.m(b.model, "DumpOutputs", V.string("folder"))
        finally:
            w.hooks = old
        self.put("result of the run", V.boolean(w.isok(r) is TRUE) if w.isok(r) in (TRUE, FALSE) else r)
        self.put("steps of the run", num(self.steps))


def actions(b, covers):
    """dated and yearly actions"""
    w = b.w
    out = []
    uid = b.uid(b.units()[0])
    if w.p.cls.get("ActionLandCoverChange") and len(covers) > 1:
        for dates in ((58850, 58851), (58850.5,)):
            a = w.new("ActionLandCoverChange")
            for d in dates:
                w.m(a, "AddChange", num(str(d)), num(uid), V.string(covers[1]), num(10))
            out.append(a)
    for a in out:
        w.m(b.model, "AddAction", a)
    return out


def glacier_actions(b, rows):
    """the actions that change the glaciers every year, with tables that start from the
    areas of the model, or from given ones where the model has no glacier yet"""
    w, out = b.w, []
    ids = mk("vec", *[num(u) for u, f in rows])
    area = mk("vec", *[mk("vec", *[num(str(f * k)) for u, f in rows]) for k in (1, 0.5, 0)])
    ice = mk("vec", *[mk("vec", *[num(str(f * k)) for u, f in rows]) for k in (10, 4, 0)])
    for cls, month in (("ActionGlacierEvolutionDeltaH", 1), ("ActionGlacierEvolutionAreaScaling", 1)):
        a = w.new(cls)
        w.m(a, "AddLookupTables", num(month), V.string("glacier"), ids, area, ice)
        out.append(a)
    out.append(w.new("ActionGlacierSnowToIceTransformation", num(1), num(2), V.string("glacier")))
    for a in out:
        r = w.m(b.model, "AddAction", a)
        if r is not TRUE:
            raise Broken("an action on the glaciers is refused in the analysis: %s %s" % (V.show(r)[:200], w.escaped()[:1]))
    return out


def label_names(b):
    """names for the objects that belong to named elements"""
    w, out = b.w, {}
    for owner, i in [(b.sub, 0)] + [(u, b.uid(u)) for u in b.units()]:
        for br in b.bricks(owner):
            for pth, o in b.walk(br, owned=True):
                out.setdefault(o, "%s%s (unit %d)" % (b.nm(br), pth, i))
            for pr in b.processes(br):
                for pth, o in b.walk(pr, owned=True):
                    out[o] = "%s.%s%s (unit %d)" % (b.nm(br), b.nm(pr), pth, i)
    return out


def fill(b, container, name):
    """a named content, unless the container does not take one"""
    w = b.w
    s = b.snap()
    w.m(container, "UpdateContent", nat(("name", name)))
    if not b.clean:
        b.back(s)


def stir(b, covers):
    """what a time step may do to the parts of the model; gives the locations it changed"""
    w = b.w
    s = b.snap()
    n = 0
    touched = set()

    def attempt(*a):
        before = b.snap()
        was = dict(w.st.s)
        deep = len(w.frames), len(w.loops), len(w.tries)
        try:
            w.m(*a)
        except (V.Unknown, Missing):
            del w.frames[deep[0]:], w.loops[deep[1]:], w.tries[deep[2]:]
        touched.update(l for l, v in w.st.s.items() if was.get(l) != v)
        b.back(before)
    for u, spec in zip(b.units(), STRUCTURES[b.name]["units"]):
        for c, fr in spec["covers"][:2]:
            attempt(u, "ChangeLandCoverAreaFraction", V.string(c), num("0.375"))
    for uid, br, pr in b.everything():
        for c in b.all(br, "WaterContainer", owned=True):
            n += 1
            fill(b, c[1], "store%d" % n)
    for uid, br, pr in b.everything():
        attempt(pr, "GetChangeRates")
        for fl in b.outputs(pr):
            n += 1
            attempt(fl, "UpdateFlux", nat(("name", "amount%d" % n)))
    for owner in b.units() + [b.sub]:
        for sp in b.splitters(owner):
            attempt(sp, "Compute")
    b.back(s)
    return touched


EVOLVING = [{"id": 1, "area": 100.0, "covers": (("open", 1.0), ("glacier", 0.0))},
            {"id": 2, "area": 400.0, "covers": (("open", 0.75), ("glacier", 0.25))}]


def whole(ctx, name, spinup, W, evolving=False):
    if evolving:
        b = Built(ctx, name, spinup=spinup, values=dict(FIXED, infinite_storage=0), units=EVOLVING, start="2019-12-31", end="2020-01-02")
    else:
        b = Built(ctx, name, spinup=spinup, values=FIXED)
    w = b.w
    w.named_finite = True
    r = b.initialize()
    if not b.clean or w.isok(r) is not TRUE:
        raise Broken("the structure %s cannot be initialised in the analysis: %s" % (name, V.show(r)[:200]))
    b.forcing(b.forcing_kinds(), start=58848 if evolving else 58849)
    covers = [c for c, _ in STRUCTURES[name]["units"][0]["covers"]]
    if evolving:
        glacier_actions(b, ((1, 50), (2, 100)))
    else:
        actions(b, covers)
    if not b.clean:
        raise Broken("preparing the structure %s throws in the analysis: %s" % (name, w.escaped()[:1]))
    where = w.at(b.model, "Reset")
    tag = name + (" with spin-up" if spinup else "") + (" with glacier evolution" if evolving else "")
    s = b.snap()
    first = Watch(b, not spinup)
    first.names = label_names(b)
    first.run()
    for l in first.lost:
        ctx.und("model", tag, l)
    if not b.clean or not first.steps:
        ctx.und("model", tag, "the first run left the analysis domain: %s %s" % (w.escaped()[:1], w.notes[:2]))
        return
    n = 0
    touched = stir(b, covers)
    for pth, o in b.walk(b.model):
        c = w.exact.get(o)
        if c is None or any(w.p.is_a(c, x) for x in ("Parameter", "SettingsModel", "SettingsBasin", "LogState")):
            continue
        for f in b.fields(o):
            if f["q"] not in W or f["ty"].strip().endswith(("*", "&")):
                continue
            l = mk("loc", "f", o, f["q"])
            if w.p.is_a(c, "Flux") and l not in touched:
                continue
            v = w.st.s.get(l)
            x = soiled(v, (first.names.get(o) or pth) + "." + f["q"].rsplit("::", 1)[-1]) if v is not None else None
            if x is not None:
                w.st.s[l] = x
                n += 1
    if not n:
        raise Broken("running the model writes nothing in the analysis")
    w.m(b.model, "Reset")
    if w.escaped():
        ctx.check(False, "model", tag + " exception", where, "%s: the reset throws %s" % (tag, str(w.escaped()[0])[:200]))
        return
    again = Watch(b, not spinup)
    again.names = first.names
    again.run()
    if w.escaped():
        ctx.check(False, "model", tag + " run", where, "%s: the run after a reset throws %s" % (tag, str(w.escaped()[0])[:200]))
    elif not b.clean:
        ctx.und("model", tag, "the run after the reset left the analysis domain")
    for k in list(first.out) + [k for k in again.out if k not in first.out]:
        if k in first.out and k in again.out:
            p, q = first.out[k][0], again.out[k][0]
            flat_same(ctx, tag + ": " + k, where, p, q)
        else:
            ctx.check(False, "model", "%s: %s" % (tag, k), where, "%s: %s %s after a reset" % (tag, k, "is missing" if k in first.out else "appears only"))


def flat_same(ctx, key, where, p, q):
    if p.k == "vec" and q.k == "vec" and len(p.a) == len(q.a):
        if p == q:
            ctx.ok("model", key, where)
            return
        for i, (x, y) in enumerate(zip(p.a, q.a)):
            flat_same(ctx, "%s[%d]" % (key, i), where, x, y)
        return
    same(ctx, "model", key, where, p, q, key + " after a reset")


def run(ctx):
    ctx.rule("process", "after a reset, the rates of a process do not depend on what it did before")
    ctx.rule("model", "after a reset, a run starts from the same state, computes the same rates, and records and applies the same as the first one")
    from .c11 import LAWS
    W = run_writes(ctx)
    reg = procs.Registry(ctx.prog)
    for typ, (bcls, law) in sorted((k, v[:2]) for k, v in LAWS.items()):
        if typ in reg.rows:
            ctx.each("process", typ, kind, ctx, reg, typ, bcls, W)
        else:
            raise Broken("process kind %s is not registered" % typ)
    for n in sorted(STRUCTURES):
        for sp in (0, 1):
            ctx.each("model", n, whole, ctx, n, sp, W)
    for sp in (0, 1):
        ctx.each("model", "glacier evolution", whole, ctx, "socont-plain", sp, W, True)
