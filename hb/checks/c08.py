"""C08: a land cover or store with no area neither receives nor yields water.

Units with several covers (snowpacks, canopies, outputs of every kind) are put together as
the package does; the rates of all processes and the water of the splitters are unknown. One
time step is evaluated three times: with a cover that has no area from the start, with one
that lost its area after a step, and without that cover. What the other bricks hold
afterwards and the outlet must be the same, and nothing may move in the brick without area."""
from fractions import Fraction
from .. import vals as V
from ..vals import mk, num, nat, NULL, TRUE, FALSE
from ..scene import judge, tainted, nm
from ..bench import Missing
from ..stores import TYPES
from ..structures import Built, proc, hbv_basics, PROPS, SPROPS
from ..ir import Broken

ASSUMPTIONS = ["Rates, inputs and contents are unknown but positive and far from the limits of the stores; the limits themselves are C13.",
               "Three covers in all orders, two units, and outputs of every kind stand for all arrangements."]

G = "generic_land_cover"
COVERS = [("open", G), ("forest", G), ("glacier", "glacier")]


def mosaic(w, covs, style=0):
    names = [n for n, t in covs]
    hbv_basics(w, covs, "forest" in names)
    for n, t in covs:
        w.s("SelectHydroUnitBrick", n)
        if t == "glacier":
            w.s("AddBrickParameter", "no_melt_when_snow_cover", 1.0)
            proc(w, "melt", "melt:degree_day", "deep", True)
            proc(w, "trickle", "outflow:linear", "pond")
            proc(w, "drain", "outflow:linear", "deep")
        proc(w, "soak", "outflow:linear", "pond")
        proc(w, "runoff", "outflow:linear", "outlet")
        proc(w, "seep", "outflow:linear", "soil")
        w.s("SetProcessOutputsAsStatic")
        proc(w, "sink", "outflow:linear", "soil", True)
        proc(w, "dip", "outflow:linear", "soil")
        proc(w, "gully", "outflow:linear", "deep")
        proc(w, "drip", "outflow:linear", "share")
    w.s("AddHydroUnitBrick", "pond", "storage")
    w.s("SetCurrentBrickComputedDirectly")
    for i in range(10):
        proc(w, "outflow %d" % i, "outflow:linear", "soil")
    proc(w, "spill", "outflow:linear", "outlet")
    w.s("AddHydroUnitBrick", "soil", "storage")
    proc(w, "outflow", "outflow:linear", "outlet")
    proc(w, "percolation", "percolation:constant", "deep")
    w.s("AddHydroUnitSplitter", "share", "multi_fluxes")
    w.s("AddSplitterOutput", "outlet")
    w.s("AddSplitterOutput", "soil")
    w.s("AddSubBasinBrick", "deep", "storage")
    proc(w, "outflow", "outflow:linear", "outlet")
    w.s("AddLoggingToItem", "outlet")


class Scene:
    """a structure whose unit 1 has the covers given, with their fractions; unit 2 has all"""

    def __init__(self, ctx, order, gone, without=False, solver="euler_explicit", both=False):
        self.ctx, self.gone, self.both = ctx, gone, both
        rest = [c for c in order if c[0] != gone]

        def tweak(w):
            mosaic(w, order)
            if without:
                w.s("AddStructure")
                mosaic(w, rest)
        fr = {"open": 0.5, "forest": 0.25, "glacier": 0.25}
        units = []
        for i in (1, 2):
            cov = rest if without and i == 1 else order
            units.append({"id": i, "area": 100.0 * i, "covers": tuple((n, fr[n] if len(cov) > 2 else 0.5) for n, t in cov), "props": PROPS, "sprops": SPROPS})
        self.b = b = Built(ctx, "blank", solver=solver, units=units, tweak=tweak, log_all=False)
        self.w = w = b.w
        w.named_finite = True
        r = b.initialize()
        if not b.clean or w.isok(r) is not TRUE:
            raise Broken("the structure cannot be initialised in the analysis (%s)" % V.show(r)[:200])
        self.at = w.at(b.processor, "ProcessTimeStep")
        self.unit = b.units()[0]
        self.names, self.owner, self.stores, self.facts = {}, {}, [], []
        for i, o in [(0, b.sub)] + [(b.uid(u), u) for u in b.units()]:
            for x in b.bricks(o):
                n = b.nm(x)
                self.names[x] = (i, n)
                for p in b.processes(x):
                    self.names[p] = (i, n, b.nm(p))
                    for j, f in enumerate(b.outputs(p)):
                        self.owner[f] = (x, p, j)
                for k, get, en in TYPES:
                    try:
                        c = w.m(x, get)
                    except Missing:
                        continue
                    self.stores.append((i, n, k, x, c))
        self.split = {}
        for u in b.units():
            for s in b.splitters(u):
                cls = w.exact[s]
                if "MultiFluxes" in cls:
                    continue
                for j, f in enumerate(x for x in b.owned(s, "Flux") if x not in self.owner):
                    self.split.setdefault(s, []).append((f, "water of %s %d" % (b.nm(s), j) + " in unit %d" % b.uid(u)))
        self.null = set()
        self.seen = []
        self.tag = ""
        self.counts = {}

    def hook(self):
        w = self.w
        old = w.hooks.get("call")

        def call(ev, e, n, recv, args, tgt):
            s = n.rsplit("::", 1)[-1]
            if s == "GetChangeRates" and recv in self.names:
                k = self.counts[recv] = self.counts.get(recv, 0) + 1
                i, b, p = self.names[recv]
                c = w.m(recv, "GetOutputFluxCount")
                out = []
                for j in range(int(V.p_constval(c.a[0]))):
                    x = nm("%srate %d of %s.%s(%d)" % (self.tag, k, b, p, j) + " in %d" % i)
                    w.assume(x > Fraction(1, 100), x < 10)
                    out.append(x.v)
                return mk("vec", *out)
            if s == "Compute" and recv in self.split:
                for f, t in self.split[recv]:
                    x = nm(self.tag + t)
                    w.assume(x > Fraction(1, 100), x < 10)
                    w.m(f, "UpdateFlux", x.v)
                return mk("void")
            if s == "ApplyConstraints" and n.startswith("WaterContainer"):
                self.look(recv)
                return mk("void")
            return old(ev, e, n, recv, args, tgt) if old else None
        w.hooks = dict(w.hooks, call=call)
        return old

    def look(self, c):
        """what the limiting code of a store is shown of its inputs"""
        for i, n, k, x, o in self.stores:
            if o is c:
                break
        else:
            return
        w = self.w
        view = []
        for f in self.b.owned(c, "Flux"):
            if f not in self.owner or self.owner[f][0] not in self.null:
                continue
            p = w.m(f, "GetChangeRatePointer")
            rate = num(0) if p is NULL else w.load(p.a[0], "double") if p.k == "addr" else None
            amount = w.m(f, "GetRealAmount") if w.has(f, "GetRealAmount") else w.m(f, "GetAmount")
            view.append((self.names[self.owner[f][1]], rate, amount))
        self.seen.append(((i, n, k), view))

    def step(self, tag):
        w, b = self.w, self.b
        V.reset_budget()
        self.tag, self.counts, self.seen = tag, {}, []
        old = self.hook()
        try:
            r = w.m(b.processor, "ProcessTimeStep", num(1))
        finally:
            w.hooks = dict(w.hooks, call=old)
        if r is not TRUE or not b.clean:
            raise V.Unknown("the step was not followed: %s %s" % (V.show(r)[:80], b.w.escaped()[:1]))

    def areas(self, fr):
        for x in self.b.bricks(self.unit):
            n = self.b.nm(x)
            if n in fr and self.w.p.is_a(self.w.exact[x], "LandCover"):
                self.w.m(x, "SetAreaFraction", num(fr[n]))
        dry = {n for n in fr if fr[n] == 0}
        # the cover and what lies on it
        self.null = {x for x in self.b.bricks(self.unit) if any(self.b.nm(x) == n or self.b.nm(x).startswith(n + "_") for n in dry)}

    def fill(self):
        for i, n, k, x, c in self.stores:
            if self.w.m(c, "IsInfiniteStorage") is not FALSE:
                continue
            v = nm("%s of %s in %d" % (k, n, i))
            self.w.assume(v > 1000)
            self.w.m(c, "UpdateContent", v.v)

    def clear(self):
        """what is under way in the parts that have an area (the model without the cover has taken no step)"""
        for u in self.b.units() + [self.b.sub]:
            for s in self.b.splitters(u):
                for f in self.b.owned(s, "Flux"):
                    if f not in self.owner or self.owner[f][0] not in self.null:
                        self.w.m(f, "Reset")
        for f, (x, p, j) in self.owner.items():
            if x not in self.null or self.b.nm(p) == "drip":      # splitters deliver one step later
                self.w.m(f, "Reset")

    def result(self):
        """(what, value) after a step"""
        w, b = self.w, self.b
        out = {}
        for i, n, k, x, c in self.stores:
            out[("content", i, n, k)] = w.m(c, "GetContentWithoutChanges")
            out[("pending", i, n, k)] = V.sub(w.m(c, "GetContentWithChanges"), out[("content", i, n, k)])
        for f, (x, p, j) in self.owner.items():
            out[("flux",) + self.names[p] + (j,)] = w.m(f, "GetRealAmount") if w.has(f, "GetRealAmount") else w.m(f, "GetAmount")
        ptr = w.m(b.sub, "GetValuePointer", V.string("outlet"))
        if ptr.k != "addr":
            raise V.Unknown("outlet value")
        out[("outlet",)] = w.load(ptr.a[0], "double")
        return out


def show(k):
    if k[0] == "outlet":
        return "the outlet"
    if k[0] == "flux":
        return "what %s.%s delivers%s" % (k[2], k[3], " in unit %d" % k[1] if k[1] else "")
    return "the %s%s of %s%s" % ("pending change of the " if k[0] == "pending" else "", k[3], k[2], " in unit %d" % k[1] if k[1] else "")


def equal(a, b, facts):
    if a is b:
        return True
    return {"held": True, "violated": False}.get(judge(a, b, facts)[0])


def title(order, gone, solver):
    return "%s without area, covers %s, %s" % (gone, ", ".join(n for n, t in order), solver)


def scene(ctx, order, gone, solver, zero):
    what = title(order, gone, solver)
    fr0 = {n: Fraction(1, 2) for n, t in order}
    fr0[gone] = Fraction(0)

    def null_part(s, res, before, extra):
        mine = {s.names[x] for x in s.null}
        for k, v in res.items():
            if k[0] in ("content", "pending") and k[1:3] in mine:
                ctx.check(equal(v, before[k], s.w.facts), "still", "%s %s%s" % (what, k, extra), s.at, "%s%s: %s changes from %s to %s" % (what, extra, show(k), V.show(before[k])[:120], V.show(v)[:200]))
            if k[0] == "flux" and k[1:3] in mine:
                ctx.check(equal(v, num(0), s.w.facts), "dry", "%s %s%s" % (what, k, extra), s.at, "%s%s: %s is %s" % (what, extra, show(k), V.show(v)[:200]))
        for (i, n, kk), view in s.seen:
            if (i, n) in mine:
                continue
            for src, rate, amount in view:
                for v, t in ((rate, "rate"), (amount, "amount")):
                    ctx.check(None if v is None else equal(v, num(0), s.w.facts), "undisturbed", "%s %s %s %s%s" % (what, n, src, t, extra), s.at,
                              "%s%s: when %s is limited it counts an incoming %s of %s from %s.%s" % (what, extra, n, t, V.show(v)[:120], src[1], src[2]))
        return mine

    def others(a, b, mine, rule, text, at, facts):
        for k, v in b.items():
            if k[0] != "outlet" and k[1:3] in mine:
                continue
            if k not in a:
                continue
            ctx.check(equal(a[k], v, facts), rule, "%s %s" % (what, k), at, "%s, %s: %s is %s instead of %s" % (what, text, show(k), V.show(a[k])[:220], V.show(v)[:220]))

    # without area from the start
    s = Scene(ctx, order, gone, solver=solver)
    if gone not in {n[1] for n in s.names.values()}:
        raise Broken("the cover %s is not found" % gone)
    s0 = s.b.snap()
    s.areas(fr0)
    if not s.null:
        ctx.und("still", s.at, "%s: no brick without area" % what)
        return
    s.fill()
    before = s.result()
    s.step("")
    never = s.result()
    mine = null_part(s, never, before, "")
    facts = s.w.facts
    # it loses its area after a step
    s.b.back(s0)
    s.areas({n: Fraction(1, 4) if n != "open" else Fraction(1, 2) for n, t in order})
    s.fill()
    s.step("old ")
    s.areas(fr0)
    s.fill()
    s.clear()
    before = s.result()
    s.step("")
    lost = s.result()
    null_part(s, lost, before, ", after a step with it")
    others(lost, never, mine, "undisturbed", "after a step with it", s.at, s.w.facts)
    if zero:
        # without it
        z = Scene(ctx, order, gone, True, solver)
        z.areas(fr0)
        z.fill()
        z.step("")
        others(never, z.result(), mine, "undisturbed", "compared with the structure without it", s.at, list(z.w.facts) + list(facts))


def run(ctx):
    ctx.rule("still", "a step neither changes what a brick without area holds nor leaves a change pending in it")
    ctx.rule("dry", "a brick without area delivers nothing, also right after a step in which it had one")
    ctx.rule("undisturbed", "all other bricks and the outlet are as in the structure without that brick; limiting them counts nothing from it")
    import itertools
    orders = list(itertools.permutations(COVERS)) if ctx.tier != "quick" else [COVERS, COVERS[1:] + COVERS[:1], COVERS[2:] + COVERS[:2]]
    for i, o in enumerate(orders):
        for g, t in COVERS:
            ctx.each("still", g, scene, ctx, list(o), g, "euler_explicit", i == 0 or ctx.tier != "quick")
    for sv in ("heun_explicit", "rk4"):
        ctx.each("still", sv, scene, ctx, COVERS, "forest", sv, False)
