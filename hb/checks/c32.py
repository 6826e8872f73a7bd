"""C32: the excess of a store with a capacity goes through its overflow, however it was declared.

Structures with a limited store in every position (cover, unit store, store computed directly,
basin store) are put together as the package does, with the overflow declared by each name the
process factory accepts for it, at each place among the processes. A time step in which more
enters than fits is evaluated with unknown rates: the store ends at its capacity and the overflow
has delivered the excess. The same store without overflow takes no more than fits."""
from fractions import Fraction
from .. import vals as V
from ..vals import mk, num, NULL, TRUE, FALSE
from ..scene import judge, nm, Registry
from ..bench import Missing
from ..structures import Built, proc
from ..ir import Broken

ASSUMPTIONS = ["One feeding store and one limited store per position; the excess is between 1 and 100 mm."]
G = "generic_land_cover"
CAP = 50
FEEDER = {"unit": "soil", "direct": "open", "basin": "tank", "second variant": "soil"}


def accepted(ctx):
    """the names under which the factory makes the same process as 'overflow'"""
    reg = Registry(ctx.prog)
    if not reg.rows:
        raise Broken("the process registry was not found")
    canon = lambda t: reg.alias.get(t, t)
    ref = canon("overflow")
    if ref not in reg.rows:
        raise Broken("the overflow process is not in the registry")
    out = [t for t in reg.alias if canon(t) == ref] + [t for t in reg.rows if t == ref]
    # further entries creating the same class
    mine = made(reg.rows[ref][0])
    for t, r in reg.rows.items():
        if t not in out and mine and made(r[0]) == mine:
            out.append(t)
            out += [a for a in reg.alias if reg.alias[a] == t and a not in out]
    return sorted(out)


def made(lam):
    from ..ir import walk
    for x in walk(lam):
        t = x.get("ty") or ""
        if "unique_ptr<Process" in t:
            return t
    return None


def limited(w, name, key, last, target):
    w.s("AddBrickParameter", "capacity", float(CAP))
    if key and not last:
        proc(w, "spill", key, target)
    proc(w, "out", "percolation:constant", target)
    if key and last:
        proc(w, "spill", key, target)


def structure(pos, key, last):
    def build(w):
        w.s("GeneratePrecipitationSplitters", False, "snow_rain:linear")
        w.s("AddLandCoverBrick", "open", G)
        w.s("SelectHydroUnitBrick", "open")
        proc(w, "feed", "percolation:constant", "store" if pos == "direct" else "soil")
        w.s("AddHydroUnitBrick", "soil", "storage")
        proc(w, "feed", "percolation:constant", "tank" if pos == "basin" else "outlet" if pos == "direct" else "store")
        w.s("AddHydroUnitBrick", "deep", "storage")
        proc(w, "out", "percolation:constant", "outlet")
        if pos != "basin":
            w.s("AddHydroUnitBrick", "store", "storage")
            if pos == "direct":
                w.s("SetCurrentBrickComputedDirectly")
            limited(w, "store", key, last, "outlet" if last else "deep")
        else:
            w.s("AddSubBasinBrick", "tank", "storage")
            proc(w, "feed", "percolation:constant", "store")
            w.s("AddSubBasinBrick", "store", "storage")
            limited(w, "store", key, last, "outlet")
        w.s("AddLoggingToItem", "outlet")

    def tweak(w):
        if pos == "second variant":
            w.s("GeneratePrecipitationSplitters", False, "snow_rain:linear")
            w.s("AddLandCoverBrick", "lake", G)
            w.s("SelectHydroUnitBrick", "lake")
            proc(w, "feed", "percolation:constant", "outlet")
            w.s("AddLoggingToItem", "outlet")
            w.s("AddStructure")
        build(w)
    return tweak


def scene(ctx, pos, key, last, solver):
    what = "%s store with %s%s, %s" % (pos, "'%s'" % key if key else "no overflow", " before the other output" if key and not last else "", solver)
    b = Built(ctx, "blank", solver=solver, units=[{"id": 4, "area": 100.0, "covers": (("open", 1.0),), "props": (), "sprops": ()}],
              tweak=structure(pos, key, last), log_all=False, values={"capacity": CAP})
    w = b.w
    w.named_finite = True
    r = b.initialize()
    if not b.clean or w.isok(r) is not TRUE:
        raise V.Unknown("the structure cannot be initialised in the analysis (%s)" % V.show(r)[:200])
    at = w.at(b.processor, "ProcessTimeStep")
    unit = b.units()[0]
    owner = b.sub if pos == "basin" else unit
    bricks = {b.nm(x): x for x in b.bricks(unit)}
    bricks.update({b.nm(x): x for x in b.bricks(b.sub)})
    store = bricks["store"]
    procs = {b.nm(p): p for p in b.processes(store)}
    water = w.m(store, "GetWaterContainer")
    for n, c in (("open", 500), ("soil", 500), ("tank", 500), ("deep", 500), ("store", 40)):
        if n in bricks:
            w.m(w.m(bricks[n], "GetWaterContainer"), "UpdateContent", num(c))
    names = {p: (b.nm(x), b.nm(p)) for x in bricks.values() for p in b.processes(x)}
    spill = procs.get("spill")
    if key and spill is None:
        raise Broken("the overflow process is not found")
    old = w.hooks.get("call")
    rate = {}

    def call(ev, e, n, recv, args, tgt):
        if n.rsplit("::", 1)[-1] == "GetChangeRates" and recv in names and recv is not spill:
            k = names[recv]
            if k not in rate:
                rate[k] = nm("rate of %s.%s" % k)
                lo, hi = (20, 60) if k[1] == "feed" else (1, 5)
                w.assume(rate[k] > lo, rate[k] < hi)
            return mk("vec", rate[k].v)
        if n.startswith("Splitter") and n.endswith("::Compute"):
            return V.VOID
        return old(ev, e, n, recv, args, tgt) if old else None
    w.hooks = dict(w.hooks, call=call)
    V.reset_budget()
    try:
        r = w.m(b.processor, "ProcessTimeStep", num(1))
    finally:
        w.hooks = dict(w.hooks, call=old)
    if r is not TRUE or not b.clean:
        if w.escaped():
            ctx.bad("connected", what, at, "%s: the step fails (%s)" % (what, str(w.escaped()[0])[:160]))
        else:
            ctx.und("connected", at, "%s: the step was not followed (%s)" % (what, V.show(r)[:120]))
        return
    into = rate.get((FEEDER[pos], "feed"))
    out = rate.get(("store", "out"))
    if into is None or out is None:
        raise Broken("the rates of the feeding and the limited store are not asked for")
    content = w.m(water, "GetContentWithoutChanges")
    facts = w.facts
    held = judge(content, num(CAP), facts)
    v = {"held": True, "violated": False}.get(held[0])
    ctx.check(v, "bounded", what, at, "%s: %s mm are held after a step in which more enters than fits into %d mm" % (what, V.show(content)[:160], CAP))
    if spill is None:
        return
    fl = b.outputs(spill)
    amount = w.m(fl[0], "GetAmount")
    want = V.add(V.sub(into.v, out.v), num(40 - CAP))
    v = {"held": True, "violated": False}.get(judge(amount, want, facts)[0])
    ctx.check(v, "connected", what, at, "%s: the overflow delivers %s instead of the excess %s" % (what, V.show(amount)[:160], V.show(want)[:160]))


def run(ctx):
    ctx.rule("connected", "with the overflow declared by any accepted name, in any position, the excess of the step is what the overflow delivers")
    ctx.rule("bounded", "the store ends the step at its capacity")
    keys = accepted(ctx)
    if "overflow" not in keys or len(keys) < 1:
        raise Broken("accepted names of the overflow: %s" % keys)
    for pos in FEEDER:
        for key in keys + [None]:
            for last in (True, False) if key else (True,):
                for sv in ("euler_explicit", "rk4", "analytic_linear") if ctx.tier != "quick" or last else ("heun_explicit",):
                    # (sequential solvers document that they do not enforce a capacity without overflow;
                    #  direct handovers into such a store are refused)
                    if key is None and (pos == "direct" or sv == "analytic_linear"):
                        continue
                    if pos == "direct" and sv != "euler_explicit" and ctx.tier == "quick":
                        continue
                    ctx.each("connected", pos, scene, ctx, pos, key, last, sv)
