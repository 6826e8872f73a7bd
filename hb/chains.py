"""Assembled chains of a feeding and a limited store, for the limits in whole time steps (C13)."""
from . import vals as V
from .vals import mk, num, TRUE
from .scene import judge, nm
from .structures import Built, proc
from .ir import Broken

G = "generic_land_cover"
CAP = 50
CHAINS = {
    "a cover to a unit store": ("open", "store", False),
    "a cover to a unit store, handed over": ("open", "store", True),
    "a unit store to a unit store": ("soil", "store", False),
    "a directly computed store to a unit store": ("pond", "store", False),
    "a unit store to a basin store": ("soil", "basin", False),
    "a cover to a basin store": ("open", "basin", False),
    "a basin store to a basin store": ("tank", "basin", False),
}


def settings(source, target, static):
    def feed(w, name):
        if source == name:
            proc(w, "feed", "percolation:constant", "store")
            if static:
                w.s("SetProcessOutputsAsStatic")
        else:
            proc(w, "feed", "percolation:constant", "outlet")

    def store(w, unit):
        w.s("AddHydroUnitBrick" if unit else "AddSubBasinBrick", "store", "storage")
        w.s("AddBrickParameter", "capacity", float(CAP))
        proc(w, "out", "percolation:constant", "outlet")
        proc(w, "spill", "overflow", "outlet")

    def tweak(w):
        w.s("GeneratePrecipitationSplitters", False, "snow_rain:linear")
        w.s("AddLandCoverBrick", "open", G)
        w.s("SelectHydroUnitBrick", "open")
        feed(w, "open")
        w.s("AddHydroUnitBrick", "pond", "storage")
        w.s("SetCurrentBrickComputedDirectly")
        feed(w, "pond")
        w.s("AddHydroUnitBrick", "soil", "storage")
        feed(w, "soil")
        if target == "store":
            store(w, True)
        w.s("AddSubBasinBrick", "tank", "storage")
        feed(w, "tank")
        if target == "basin":
            store(w, False)
        w.s("AddLoggingToItem", "outlet")
    return tweak


class Chain:
    def __init__(self, ctx, chain, solver):
        self.what = chain
        self.b = b = Built(ctx, "blank", solver=solver, units=[{"id": 4, "area": 100.0, "covers": (("open", 1.0),), "props": (), "sprops": ()}],
                           tweak=settings(*CHAINS[chain]), log_all=False, values={"capacity": CAP})
        self.w = w = b.w
        w.named_finite = True
        r = b.initialize()
        if not b.clean or w.isok(r) is not TRUE:
            raise V.Unknown("the structure cannot be initialised in the analysis (%s)" % V.show(r)[:200])
        self.at = w.at(b.processor, "ProcessTimeStep")
        self.bricks = {b.nm(x): x for o in (b.units()[0], b.sub) for x in b.bricks(o)}
        self.names = {p: (n, b.nm(p)) for n, x in self.bricks.items() for p in b.processes(x)}
        self.procs = {v: k for k, v in self.names.items()}
        self.source = CHAINS[chain][0]
        if (self.source, "feed") not in self.procs or ("store", "spill") not in self.procs:
            raise Broken("the stores of a chain are not found")
        self.water = w.m(self.bricks["store"], "GetWaterContainer")

    def step(self, tag, feed, out, content):
        """one time step; feed and out are the ranges of the rates"""
        w, b = self.w, self.b
        for n, x in self.bricks.items():
            w.m(w.m(x, "GetWaterContainer"), "UpdateContent", num(content if n == "store" else 500))
        rates = {}
        old = w.hooks.get("call")
        spill = self.procs["store", "spill"]

        def call(ev, e, n, recv, args, tgt):
            if n.rsplit("::", 1)[-1] == "GetChangeRates" and recv in self.names and recv is not spill:
                k = self.names[recv]
                if k not in rates:
                    rates[k] = nm("%srate of %s.%s" % ((tag,) + k))
                    lo, hi = feed if k[1] == "feed" else out
                    w.assume(rates[k] > lo, rates[k] < hi)
                return mk("vec", rates[k].v)
            if n.startswith("Splitter") and n.endswith("::Compute"):
                return V.VOID
            return old(ev, e, n, recv, args, tgt) if old else None
        w.hooks = dict(w.hooks, call=call)
        V.reset_budget()
        try:
            r = w.m(b.processor, "ProcessTimeStep", num(1))
        finally:
            w.hooks = dict(w.hooks, call=old)
        if r is not TRUE or not b.clean:
            raise V.Unknown("the step was not followed (%s %s)" % (V.show(r)[:80], w.escaped()[:1]))
        return rates[self.source, "feed"], rates["store", "out"]

    def delivered(self, p):
        return self.w.m(self.b.outputs(self.procs["store", p])[0], "GetAmount")

    def content(self):
        return self.w.m(self.water, "GetContentWithoutChanges")


def sound(v, want, facts):
    return {"held": True, "violated": False}.get(judge(v, want, facts)[0])


def limits(ctx, chain, solver):
    """a step in which more enters than fits, and one in which more is asked for than there is"""
    c = Chain(ctx, chain, solver)
    key = "%s, %s" % (chain, solver)
    s0 = c.b.snap()
    feed, out = c.step("full ", (20, 60), (1, 5), 40)
    got = c.content()
    ctx.check(sound(got, num(CAP), c.w.facts), "assembled", "full: " + key, c.at,
              "From %s (%s): %s mm are held after a step in which more enters than fits into %d mm" % (chain, solver, V.show(got)[:150], CAP))
    want = V.add(V.sub(feed.v, out.v), num(40 - CAP))
    got = c.delivered("spill")
    ctx.check(sound(got, want, c.w.facts), "assembled", "overflow: " + key, c.at,
              "From %s (%s): the overflow delivers %s instead of the excess %s" % (chain, solver, V.show(got)[:150], V.show(want)[:150]))
    for before in (False, True):
        c.b.back(s0)
        if before:
            c.step("earlier ", (20, 30), (1, 5), 5)
        feed, out = c.step("wet " if before else "dry ", (1, 2), (10, 12), 5)
        want = V.add(feed.v, num(5))
        got = c.delivered("out")
        ctx.check(sound(V.v_max(got, want), want, c.w.facts), "assembled", "empty%s: " % (" after a wet step" if before else "") + key, c.at,
                  "From %s (%s): %s mm flow out%s although the store held 5 mm and received %s" % (chain, solver, V.show(got)[:150], " after a wet step" if before else "", V.show(feed.v)))
