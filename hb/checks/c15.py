"""C15: water moved between areas is scaled by the area it covers.

Model structures are put together by evaluating the settings, basin and builder code. Land
cover fractions are then set to unknown values (several times, in different orders) and what
each flux delivers for an unknown depth is compared with that depth weighted by the fraction
of its origin and, towards the basin, by the share of the unit."""
from .. import vals as V
from ..vals import mk, num, VOID, TRUE
from ..scene import *
from ..bench import Missing
from ..structures import Built, STRUCTURES
from ..ir import Broken

ASSUMPTIONS = ["The structures in hb/structures.py stand for all: covers, snow and canopy stores, storages and splitters of a unit feeding each other, the basin and the outlet.",
               "Fluxes to other units (lateral) convert areas themselves and belong to C29. Water lost to the atmosphere is not moved to another area.",
               "Unit areas have the numbers of these structures; fractions and depths are unknown."]


class Weights:
    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        self.b = b = Built(ctx, name)
        self.w = w = b.w
        r = b.initialize()
        if not b.clean or w.isok(r) is not TRUE:
            raise Broken("the structure %s cannot be initialised in the analysis: %s %s" % (name, V.show(r)[:200], w.notes[:3]))
        self.spec = STRUCTURES[name]["units"]
        self.total = sum(u["area"] for u in self.spec)
        self.us = {b.uid(u): u for u in b.units()}
        self.bricks = {i: {b.nm(x): x for x in b.bricks(u)} for i, u in self.us.items()}
        self.covers = {i: [n for n, x in self.bricks[i].items() if w.p.is_a(w.exact[x], "LandCover")] for i in self.us}
        self.rows = list(self.find())

    def is_a(self, o, c):
        return self.w.p.is_a(self.w.exact[o], c)

    def cover_of(self, i, br):
        """the land cover a brick lies on, None for a brick of the whole unit"""
        if self.is_a(br, "LandCover"):
            return self.b.nm(br)
        if self.is_a(br, "SurfaceComponent"):
            return self.b.nm(self.w.m(br, "GetParent"))
        return None

    def find(self):
        """(unit, origin cover, origin, element, flux, target, weighted by cover, by unit share)"""
        b, w = self.b, self.w
        basin = b.bricks(b.sub)
        for i, u in self.us.items():
            for br in b.bricks(u):
                c = self.cover_of(i, br)
                for pr in b.processes(br):
                    if self.is_a(pr, "ProcessLateral"):
                        continue
                    for f in b.outputs(pr):
                        if self.is_a(f, "FluxToAtmosphere"):
                            continue
                        t = None
                        if self.is_a(f, "FluxToBrick"):
                            t = w.m(f, "GetTargetBrick")
                            yield i, c, br, pr, f, t, not (t not in basin and self.cover_of(i, t) is not None), t in basin
                        elif self.is_a(f, "FluxToOutlet"):
                            yield i, c, br, pr, f, t, True, True
                        else:
                            t = self.splitter(f)
                            if t is not None:
                                yield i, c, br, pr, f, t, True, t in b.splitters(b.sub)
            for sp in b.splitters(u):
                ins = self.inputs(sp)
                for f in b.owned(sp, "Flux"):
                    if f in ins:
                        continue
                    if self.is_a(f, "FluxToBrick"):
                        t = w.m(f, "GetTargetBrick")
                        yield i, None, sp, None, f, t, False, t in basin
                    elif self.is_a(f, "FluxToOutlet"):
                        yield i, None, sp, None, f, None, False, True
                    else:
                        t = self.splitter(f)
                        if t is not None:
                            yield i, None, sp, None, f, t, False, t in b.splitters(b.sub)

    def splitter(self, f):
        """the splitter a flux goes into"""
        b = self.b
        for o in [b.sub] + list(self.us.values()):
            for sp in b.splitters(o):
                if f in self.inputs(sp):
                    return sp
        return None

    def inputs(self, sp):
        """fluxes a splitter refers to without owning them"""
        w, out = self.w, []
        for f in self.b.fields(sp):
            v = w.st.s.get(mk("loc", "f", sp, f["q"]))
            if v is not None and v.k == "vec" and "unique_ptr" not in f["ty"]:
                out += list(v.a)
        return out

    def share(self, i):
        return N(num(next(u["area"] for u in self.spec if u["id"] == i))) / N(num(self.total))

    def text(self, row):
        i, c, o, pr, f, t = row[:6]
        return "%s%s to %s (unit %d)" % (self.b.nm(o), "." + self.b.nm(pr) if pr is not None else "", self.b.nm(t) if t is not None else "the outlet", i)

    def delivered(self, f, t, x):
        """what the flux hands over for the depth x"""
        w = self.w
        if t is not None and self.is_a(f, "FluxToBrickInstantaneous"):
            cont = self.container(f, t)
            s0 = self.b.snap()
            w.m(f, "UpdateFlux", x.v)
            a = w.m(cont, "GetContentWithChanges")
            self.b.back(s0)
            z = w.m(cont, "GetContentWithChanges")
            return V.sub(a, z)
        w.m(f, "UpdateFlux", x.v)
        return w.m(f, "GetAmount")

    def container(self, f, t):
        """the store of a brick that takes what the flux carries"""
        ty = self.w.m(f, "GetType")
        for kind, get in (("Snow", "GetSnowContainer"), ("Ice", "GetIceContainer")):
            if ty == mk("enum", "ContentType::" + kind):
                try:
                    return self.w.m(t, get)
                except Missing:
                    raise Broken("%s has no %s" % (self.w.exact[t], get))
        return self.w.m(t, "GetWaterContainer")

    def compare(self, rule, fr, facts, when):
        """every flux delivers the depth times the fraction fr[unit][cover] times the unit share"""
        for row in self.rows:
            i, c, o, pr, f, t, cov, bas = row
            x = nm("depth")
            want = x
            if c is not None and cov:
                want = want * fr[i][c]
            if bas:
                want = want * self.share(i)
            s0 = self.b.snap()
            got = self.delivered(f, t, x)
            self.b.back(s0)
            at = self.ctx.at(self.w.fn(self.w.exact[f], "UpdateFlux"))
            apply_judge(self.ctx, rule, "%s %s %s" % (self.name, self.text(row), when), at, got, want.v, facts,
                        "%s: delivered by %s %s:" % (self.name, self.text(row), when))

    def cover(self, i, c):
        return self.bricks[i][c]


def symbolic(s, tag):
    fr = {i: {c: nm("%s_%s_%d" % (tag, c, i)) for c in cs} for i, cs in s.covers.items()}
    facts = [y for i in fr for x in fr[i].values() for y in (x >= 0, x < 1)]
    return fr, facts


def given(s):
    return {i: {c: N(num(dict(next(u for u in s.spec if u["id"] == i)["covers"]).get(c, 0))) for c in cs} for i, cs in s.covers.items()}


def structure(ctx, name):
    s = Weights(ctx, name)
    w, b = s.w, s.b
    s.compare("initial", given(s), (), "after initialising")
    start = b.snap()
    a, fa = symbolic(s, "a")
    g, fg = symbolic(s, "b")
    # sequences of settings that end with the values a
    for k, seq in enumerate(("once", "twice", "after others", "reverse order")):
        b.back(start)
        for i, cs in s.covers.items():
            order = cs if seq != "reverse order" else cs[::-1]
            if seq in ("after others", "reverse order"):
                for c in order:
                    w.m(s.cover(i, c), "SetAreaFraction", g[i][c].v)
            for c in order:
                for _ in range(2 if seq == "twice" else 1):
                    w.m(s.cover(i, c), "SetAreaFraction", a[i][c].v)
        s.compare("updated", a, fa + fg, "when the fractions are set " + seq)
    # one cover changes: the others keep their weights
    b.back(start)
    fr = {i: dict(v) for i, v in given(s).items()}
    for i, cs in s.covers.items():
        w.m(s.cover(i, cs[-1]), "SetAreaFraction", a[i][cs[-1]].v)
        fr[i][cs[-1]] = a[i][cs[-1]]
    s.compare("updated", fr, fa, "when one fraction is set")
    # back to the initial extents
    for how in ("RestoreInitialAreaFractions", "Reset"):
        b.back(start)
        for i, cs in s.covers.items():
            for c in cs:
                w.m(s.cover(i, c), "SetAreaFraction", a[i][c].v)
        w.m(b.sub, how)
        if not b.clean:
            ctx.und("restored", name, "%s left the analysis domain" % how)
            continue
        s.compare("restored", given(s), (), "after %s" % how)
    # bounds
    for v in (0, 1):
        b.back(start)
        for i, cs in s.covers.items():
            for c in cs:
                w.m(s.cover(i, c), "SetAreaFraction", num(v))
        s.compare("updated", {i: {c: N(num(v)) for c in cs} for i, cs in s.covers.items()}, (), "when the fractions are set to %d" % v)
    # a change of cover with its compensation
    b.back(start)
    fr = {i: dict(v) for i, v in given(s).items()}
    n = 0
    for i, cs in s.covers.items():
        if "glacier" in cs and "open" in cs:
            old, op = fr[i]["glacier"], fr[i]["open"]
            new = N(num("1/8"))
            r = w.m(s.us[i], "ChangeLandCoverAreaFraction", V.string("glacier"), new.v)
            if r is not TRUE or not b.clean:
                ctx.und("updated", name, "ChangeLandCoverAreaFraction left the analysis domain")
                n = 0
                break
            fr[i]["glacier"] = new
            fr[i]["open"] = op + old - new
            n += 1
    if n:
        s.compare("updated", fr, (), "after a land cover change")


def run(ctx):
    ctx.rule("initial", "after initialisation every flux is weighted by the fraction of its origin and, towards the basin, by the share of its unit")
    ctx.rule("updated", "the weights follow the fractions, whatever the number and order of the changes")
    ctx.rule("restored", "restoring the initial fractions restores the weights")
    for n in ("outlets", "socont", "hbv", "gr4j"):
        ctx.each("initial", n, structure, ctx, n)
