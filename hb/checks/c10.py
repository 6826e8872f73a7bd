"""C10: every process declares and receives exactly the parameters it uses.

Each registered kind is given a settings object holding exactly the parameters its
registration declares; its parameter pointers are taken by the current lookup code and
the values are changed afterwards.  The rate must be the documented function of the
parameters of those names, at their new values."""
import itertools
from .. import vals as V, procs, splits
from ..vals import mk, obj, num, nat
from .. import scene
from ..scene import *
from ..ir import Broken
from . import c11

ASSUMPTIONS = ["A rate that differs from its documented law without the difference being explained by another parameter, another forcing or a stale copy is judged by C11."]
FORCINGS = ["Temperature", "PET", "Radiation", "Precipitation", "TemperatureMin", "TemperatureMax"]


class Probe:
    """collects the judgements of the law rules"""

    def __init__(self, ctx):
        self.c, self.prog, self.eff, self.tier = ctx, ctx.prog, ctx.eff, ctx.tier
        self.held, self.bad_, self.und_ = [], [], []

    def at(self, f, line=None): return self.c.at(f, line)
    def rule(self, *a): pass
    def ok(self, rule, where, detail=""): self.held.append((where, detail))
    def und(self, rule, where, detail=""): self.und_.append((where, detail))
    def bad(self, rule, key, where, msg): self.bad_.append((key, where, msg))
    def check(self, cond, rule, key, where, msg): pass


def kinds(ctx):
    out = [(typ, c11.simple, (typ,)) for typ in c11.LAWS if c11.LAWS[typ][1] is not None]
    H = Fraction
    out += [("melt:degree_day_aspect", c11.aspect, ()), ("gr4j", c11.gr4j, ()), ("capillary:hbv", c11.capillary, ()), ("refreeze:degree_day", c11.refreeze, ()),
            ("outflow:rest", c11.rest, ()), ("lateral", c11.lateral, ()), ("melt:cemaneige", c11.memory, ()), ("frey_dynamic", c11.frey_dynamic, ()),
            ("routing:gr4j", c11.routing_gr, ("routing:gr4j", H(3, 2), 1, False)), ("routing:gr6j", c11.routing_gr, ("routing:gr6j", H(3, 2), 1, False)),
            ("routing:hbv", c11.routing_hbv, (H(5, 2), 2))]
    return out


Fraction = c11.Fraction


def runkind(ctx, reg, fn, args):
    pb = Probe(ctx)
    procs.LAST.clear()
    fn(pb, reg, *args)
    return pb, list(procs.LAST)


def one(ctx, reg, name, fn, args):
    pb, prs = runkind(ctx, reg, fn, args)
    params = sorted({p for pr in prs for p in pr.params})
    for pr in prs:
        f = procs.method(ctx, pr.cls, "SetParameters")
        where = ctx.at(f) if f else pr.type
        asked = [a for a, l in pr.asked]
        if pr.refused:
            for a in asked:
                if a is not None and a not in pr.params:
                    ctx.bad("declared", "%s:%s" % (pr.type, a), where, "the process '%s' reads the parameter '%s', which its registration does not declare (declared: %s)" % (pr.type, a, ", ".join(pr.params) or "none"))
                    break
            else:
                ctx.und("declared", where, "lookup refused")
        else:
            ctx.ok("declared", where, "%s: %s" % (pr.type, ", ".join(str(a) for a in asked)))
    for typ in {pr.type for pr in prs}:
        group = [pr for pr in prs if pr.type == typ]
        f = procs.method(ctx, group[0].cls, "SetParameters")
        where = ctx.at(f) if f else typ
        asked = {a for pr in group for a, l in pr.asked}
        for p in group[0].params:
            if p in asked:
                ctx.ok("read", where, p)
            elif None in asked or not pb.bad_:
                ctx.und("read", where, p)
            else:
                ctx.bad("read", "%s:%s" % (typ, p), where, "the process '%s' does not look up its declared parameter '%s'" % (typ, p))
    for w, d in pb.held:
        ctx.ok("wiring", w, d)
    for w, d in pb.und_:
        ctx.und("wiring", w, d)
    if not pb.bad_:
        return
    # is the difference explained by a stale copy, another parameter or another forcing?
    for key, where, msg in pb.bad_:
        names = set(params)
        spec_side = [n for n in params]
        why = None
        tries = []
        olds = {p: "old:" + p for p in params}
        for p in params:
            tries.append(({p: "old:" + p}, "keeps the value the parameter '%s' had when it was attached" % p))
        if len(params) > 1:
            tries.append((olds, "keeps the values the parameters had when they were attached"))
        for p in params:
            for q in params:
                if p != q:
                    tries.append(({p: q}, "uses the parameter '%s' in place of '%s'" % (q, p)))
        for p, q in itertools.combinations(params, 2):
            tries.append(({p: q, q: p}, "exchanges the parameters '%s' and '%s'" % (p, q)))
        for p in FORCINGS:
            for q in FORCINGS:
                if p != q:
                    tries.append(({p: q}, "uses the forcing %s in place of %s" % (q, p)))
        tries.append(({"Temperature": "PET", "PET": "Temperature"}, "exchanges forcings"))
        tries.append(({"Temperature": "Radiation", "Radiation": "Temperature"}, "exchanges forcings"))
        for ren, text in tries:
            scene.RENAME.clear()
            scene.RENAME.update(ren)
            try:
                p2, _ = runkind(ctx, reg, fn, args)
            finally:
                scene.RENAME.clear()
            if not any(k == key for k, w, m in p2.bad_) and not p2.und_:
                why = text
                break
        if why:
            ctx.bad("wiring", key, where, "the process %s: %s" % (why, msg))
        else:
            ctx.und("wiring", where, "differs from the law, not by its parameters: " + msg)


SPLIT_PARAMS = None


def splitter_settings(ctx):
    """parameters and forcings the settings give to each splitter kind (from the generator of the precipitation splitters)"""
    gen = [f for f in ctx.prog.fn.values() if f["n"] == "SettingsModel::GeneratePrecipitationSplitters"]
    out = {}
    if not gen:
        return out
    for typ, snow in (("snow_rain:threshold", True), ("snow_rain:linear", True), ("snow_rain:cemaneige", True), ("rain", False)):
        cur = {}

        def call(ev, e, n, recv, args, tgt):
            s = n.rsplit("::", 1)[-1]
            if s == "AddHydroUnitSplitter" and len(args) > 1 and args[1].k == "str":
                cur["t"] = args[1].a[0]
                out.setdefault(cur["t"], ([], []))
                return V.VOID
            if s == "AddSplitterParameter" and args[0].k == "str" and "t" in cur:
                if args[0].a[0] not in out[cur["t"]][0]:
                    out[cur["t"]][0].append(args[0].a[0])
                return V.VOID
            if s == "AddSplitterForcing" and args[0].k == "str" and "t" in cur:
                if args[0].a[0] not in out[cur["t"]][1]:
                    out[cur["t"]][1].append(args[0].a[0])
                return V.VOID
            if s == "AddSplitterOutput":
                return V.VOID
            return None
        sc = Scene(ctx, hooks={"call": call})
        sc.call_fn(gen[0], sc.root("settings", "SettingsModel"), [V.boolean(snow), V.string(typ)])
    return out


def splitters(ctx):
    from . import c24
    gen = splitter_settings(ctx)
    for typ, row in sorted(splits.rows(ctx).items()):
        if typ not in c24.LAWS:
            continue
        decl = gen.get(typ)
        where = ctx.at(row[2], row[1])
        if not decl:
            ctx.und("declared", where, "no generator declares the splitter kind %s" % typ)
            continue
        sp = splits.build(ctx, typ, row, decl[0], real=True)
        if sp.cls is None and not (sp.refused and any(a not in decl[0] for a in sp.asked)):
            ctx.und("declared", where, typ)
            continue
        f = splits.method(ctx, sp.cls, "SetParameters") if sp.cls else row[2]
        if sp.refused:
            miss = [a for a in sp.asked if a not in decl[0]]
            ctx.bad("declared", typ + ":params", ctx.at(f), "the splitter '%s' reads %s, which the settings do not declare for it (declared: %s)" % (typ, miss or "a parameter", ", ".join(decl[0])))
            continue
        ctx.ok("declared", ctx.at(f), typ)
        for p in decl[0]:
            ctx.check(p in sp.asked, "read", "%s:%s" % (typ, p), ctx.at(f), "the parameter '%s' declared for the splitter '%s' is never looked up" % (p, typ))
        # forcings
        fmap = {"precipitation": "Precipitation", "temperature": "Temperature", "temperature_min": "TemperatureMin", "temperature_max": "TemperatureMax", "solar_radiation": "Radiation"}
        n0 = len(sp.sc.throws)
        for fo in decl[1]:
            splits.call_m(sp, "AttachForcing", obj("forcing", "VariableType::" + fmap[fo]))
            ctx.check(len(sp.sc.throws) == n0, "forcing accepted", "%s:%s" % (typ, fo), ctx.at(f), "the splitter '%s' refuses its declared forcing %s" % (typ, fo))
        splits.call_m(sp, "SetHydroUnitProperties", sp.sc.unit)
        outs = [sp.sc.root("out%d" % i, "FluxToBrick") for i in range(1 if typ == "rain" else 2)]
        for o in outs:
            splits.call_m(sp, "AttachFluxOut", o)
        splits.call_m(sp, "Compute")
        g = splits.method(ctx, sp.cls, "Compute")

        def law():
            return c24.LAWS[typ](lambda k: nm(k))
        for i, o in enumerate(outs):
            code = splits.amount(sp, o)
            if judge(code, law()[i].v)[0] == "held":
                ctx.ok("wiring", ctx.at(g), "output %d of %s" % (i, typ))
                continue
            why = None
            tries = [({p: "old:" + p}, "keeps the value '%s' had when attached" % p) for p in decl[0]] + [({p: "old:" + p for p in decl[0]}, "keeps old parameter values")]
            tries += [({p: q}, "uses the parameter '%s' in place of '%s'" % (q, p)) for p in decl[0] for q in decl[0] if p != q]
            tries += [({p: q, q: p}, "exchanges '%s' and '%s'" % (p, q)) for p, q in itertools.combinations(decl[0], 2)]
            for ren, text in tries:
                scene.RENAME.clear()
                scene.RENAME.update(ren)
                try:
                    r = judge(code, law()[i].v)
                finally:
                    scene.RENAME.clear()
                if r[0] == "held":
                    why = text
                    break
            if why:
                ctx.bad("wiring", "%s:%d" % (typ, i), ctx.at(g), "the splitter %s" % why)
            else:
                ctx.und("wiring", ctx.at(g), "differs from the law, not by its parameters")


def forcings(ctx, reg, typ):
    """a process accepts its declared forcings and takes each from the attached one"""
    lam, regf, line, f = reg.rows[typ]
    for br in ("Storage", "Snowpack", "Glacier", "GenericLandCover"):
        pr = procs.build(ctx, reg, typ, br)
        if pr.cls is not None and pr.obj is not None and pr.sc.st.pc is not V.FALSE:
            break
    else:
        ctx.und("forcing accepted", ctx.at(f, line), typ)
        return
    af = procs.method(ctx, pr.cls, "AttachForcing")
    for fo in pr.forcings:
        if fo not in procs.FORCING:
            continue
        n0 = len(pr.sc.throws)
        procs.call(pr, "AttachForcing", obj("forcing", procs.FORCING[fo]))
        new = [t for t in pr.sc.throws[n0:]]
        ctx.check(not new and pr.sc.st.pc is not V.FALSE, "forcing accepted", "%s:%s" % (typ, fo), ctx.at(af), "the process '%s' refuses the forcing '%s' its registration declares" % (typ, fo))
    given = [fo for fo in pr.forcings if fo in procs.FORCING]
    for fo in given:
        o = obj("forcing", procs.FORCING[fo])
        kept = any(mentions(v, o) for v in pr.sc.st.s.values()) or pr.sc.st.ver
        ctx.check(bool(kept), "forcing kept", "%s:%s" % (typ, fo), ctx.at(af), "once all its forcings are attached, the process '%s' has not kept the forcing '%s'" % (typ, fo))
    if not pr.forcings:
        ctx.ok("forcing accepted", ctx.at(f, line), "no forcing")


def mentions(v, o, depth=0):
    if v is o:
        return True
    if depth > 6 or not isinstance(v, V.V):
        return False
    return any(mentions(x, o, depth + 1) for x in v.a if isinstance(x, V.V))


def run(ctx):
    ctx.rule("forcing kept", "every declared forcing is still held after all of them were attached")
    reg = Registry(ctx.prog)
    if not reg.rows:
        raise Broken("the process registry was not found")
    ctx.rule("declared", "every parameter a process or splitter looks up is declared for it")
    ctx.rule("read", "every declared parameter is looked up")
    ctx.rule("wiring", "the rate is the documented function of the parameters of the documented names, at their current values, and of the forcings of the documented kinds")
    ctx.rule("forcing accepted", "the declared forcings are accepted by the process")
    for typ in sorted(reg.rows):
        ctx.each("forcing accepted", typ, forcings, ctx, reg, typ)
    ctx.flush()
    procs.REAL = True
    try:
        for name, fn, args in kinds(ctx):
            ctx.each("wiring", name, one, ctx, reg, name, fn, args)
        ctx.flush()
    finally:
        procs.REAL = False
    ctx.each("wiring", "splitters", splitters, ctx)
