"""C09: structures that break the two-phase computation order are refused.

Structures are put together as the package does and initialised by evaluation. In each, one
store solved in the coupled system sends water to one computed directly before it: from every
position (unit, structure variant, store, process, output) and over every kind of flux the
settings can ask for. The same structure with the receiving store solved too, or the sending
one computed directly, is the control: it has to be accepted."""
from .. import vals as V
from ..vals import mk, num, TRUE, FALSE
from ..structures import Built, proc, PROPS, SPROPS
from ..ir import Broken

ASSUMPTIONS = ["The structures listed (position of stores and processes, kinds of flux) stand for all.",
               "Water sent to a splitter is passed on in the following time step and is not meant."]


def fluxes(w, inst, static):
    if inst:
        w.s("SetProcessOutputsAsInstantaneous")
    if static:
        w.s("SetProcessOutputsAsStatic")


def store(w, name, direct=False):
    w.s("AddHydroUnitBrick", name, "storage")
    if direct:
        w.s("SetCurrentBrickComputedDirectly")


def basics(w, melt_to="outlet", run_to="a"):
    w.s("GeneratePrecipitationSplitters", True)
    w.s("AddLandCoverBrick", "open", "generic_land_cover")
    w.s("AddLandCoverBrick", "glacier", "glacier")
    if w.more:
        w.s("AddLandCoverBrick", "forest", "generic_land_cover")
    w.s("GenerateSnowpacks", "melt:degree_day")
    if w.more:
        w.s("SelectHydroUnitBrick", "forest")
        proc(w, "runoff", "outflow:linear", "a")
    w.s("SelectHydroUnitBrick", "glacier")
    w.s("AddBrickParameter", "no_melt_when_snow_cover", 1.0)
    w.s("AddBrickParameter", "infinite_storage", 1.0)
    proc(w, "melt", "melt:degree_day", melt_to)
    w.s("SelectHydroUnitBrick", "open")
    proc(w, "runoff", "outflow:linear", run_to)


# each case: name, function(w, bad): bad puts the forbidden flux in place of the allowed one
def first_store(w, bad, inst=False, static=False, target="z"):
    """the first store, its first process"""
    basics(w)
    store(w, "a")
    proc(w, "out", "outflow:linear", target)
    fluxes(w, inst, static)
    proc(w, "deep", "percolation:constant", "b")
    store(w, "b")
    proc(w, "out", "outflow:linear", "outlet")
    store(w, "z", bad)
    proc(w, "out", "outflow:linear", "outlet")


def before(w, bad):
    """the receiving store is declared before the sending one"""
    basics(w)
    store(w, "z", bad)
    proc(w, "out", "outflow:linear", "outlet")
    store(w, "a")
    proc(w, "out", "outflow:linear", "z")


def last_process(w, bad, inst=False):
    """the last store, its last process"""
    basics(w)
    store(w, "z", bad)
    proc(w, "out", "outflow:linear", "outlet")
    store(w, "a")
    proc(w, "out", "outflow:linear", "b")
    store(w, "b")
    proc(w, "et", "et:open_water")
    proc(w, "out", "outflow:linear", "outlet")
    proc(w, "deep", "percolation:constant", "z")
    fluxes(w, inst, False)


def middle(w, bad):
    """between others"""
    basics(w)
    store(w, "a")
    proc(w, "out", "outflow:linear", "b")
    store(w, "d", True)
    proc(w, "out", "outflow:linear", "outlet")
    store(w, "b")
    proc(w, "out", "outflow:linear", "outlet")
    proc(w, "back", "percolation:constant", "z")
    proc(w, "out2", "outflow:linear", "c")
    store(w, "z", bad)
    proc(w, "out", "outflow:linear", "outlet")
    store(w, "c")
    proc(w, "out", "outflow:linear", "outlet")


def second_output(w, bad):
    """a process with two outputs, the second of them"""
    basics(w, "z", "b")
    store(w, "a")
    proc(w, "cap", "capillary:hbv", "b")
    w.s("AddProcessOutput", "z")
    store(w, "b")
    w.s("AddBrickParameter", "capacity", 100.0)
    proc(w, "out", "outflow:linear", "outlet")
    store(w, "z", bad)
    w.s("AddBrickParameter", "capacity", 100.0)
    proc(w, "out", "outflow:linear", "outlet")


def overflow(w, bad):
    """the overflow of a store"""
    basics(w)
    store(w, "a")
    w.s("AddBrickParameter", "capacity", 100.0)
    proc(w, "out", "outflow:linear", "outlet")
    proc(w, "over", "overflow", "z")
    store(w, "z", bad)
    proc(w, "out", "outflow:linear", "outlet")


def to_cover(w, bad, target="open"):
    """to a land cover or what lies on it (always computed directly)"""
    basics(w)
    store(w, "a")
    proc(w, "out", "outflow:linear", "outlet")
    proc(w, "rise", "outflow:linear", target if bad else "b")
    store(w, "b")
    proc(w, "out", "outflow:linear", "outlet")


def variant(w, bad):
    """only the second structure"""
    first_store(w, False)
    w.s("AddStructure")
    w.more = True
    last_process(w, bad)


def variant_first(w, bad):
    """only the first structure"""
    last_process(w, bad)
    w.s("AddStructure")
    w.more = True
    first_store(w, False)


CASES = [("the first process of the first store", first_store), ("an instantaneous flux", lambda w, bad: first_store(w, bad, True)), ("a static flux", lambda w, bad: first_store(w, bad, False, True)),
         ("a store declared before", before), ("the last process of the last store", last_process), ("the last process, instantaneous", lambda w, bad: last_process(w, bad, True)),
         ("stores between others", middle), ("the second output of a process", second_output), ("an overflow", overflow),
         ("a land cover", to_cover), ("a glacier", lambda w, bad: to_cover(w, bad, "glacier")), ("a snowpack", lambda w, bad: to_cover(w, bad, "open_snowpack"))]
VARIANTS = [("the second structure only", variant), ("the first structure only", variant_first)]


def rows(ids, structures=None):
    """units; those of the second structure have a further cover, by which it is found"""
    out = []
    for i, s in zip(ids, structures or [1] * len(ids)):
        out.append({"id": i, "area": 100.0 * (1 + i % 3), "covers": (("open", 0.75), ("glacier", 0.25)) if s == 1 else (("open", 0.5), ("glacier", 0.25), ("forest", 0.25)),
                    "props": PROPS, "sprops": SPROPS})
    return out


def outcome(ctx, case, bad, units, solver="heun_explicit"):
    def tweak(w):
        w.more = False
        case(w, bad)
    b = Built(ctx, "blank", solver=solver, units=units, tweak=tweak, log_all=False)
    b.w.named_finite = True
    r = b.initialize()
    ok = b.w.isok(r)
    if b.w.st.pc is not TRUE or b.w.escaped():
        return b, None
    return b, ok


def one(ctx, title, case, units, solver="heun_explicit", control=True):
    if control:
        b, ok = outcome(ctx, case, False, units, solver)
        at = b.w.at(b.processor, "Initialize")
        if ok is not TRUE:
            # refused for another reason: nothing can be said about the case
            ctx.und("accepted", at, "%s: the structure without it is not initialised" % title)
            return
        ctx.ok("accepted", at)
    b, ok = outcome(ctx, case, True, units, solver)
    at = b.w.at(b.processor, "Initialize")
    if ok not in (TRUE, FALSE):
        ctx.und("refused", at, "%s: the outcome is not known" % title)
        return
    ctx.check(ok is FALSE, "refused", title + " refused", at, "a store that is solved feeds one computed directly over %s, and the structure is initialised" % title)


def run(ctx):
    ctx.rule("refused", "initialising a structure in which a solved store feeds one computed directly fails")
    ctx.rule("accepted", "the same structure without that is initialised")
    for n, c in CASES:
        ctx.each("refused", n, one, ctx, n, c, rows((4, 1)))
    for n, c in VARIANTS:
        for i, st in enumerate(((1, 2, 2), (2, 1, 1), (1, 1, 2), (2, 2, 1))):
            ctx.each("refused", n, one, ctx, "%s, units with structures %s" % (n, st), c, rows((4, 1, 9), st), "heun_explicit", i == 0)
    for sv in ("euler_explicit", "rk4", "analytic_linear", "implicit_euler", "crank_nicolson", "exponential_euler"):
        ctx.each("refused", sv, one, ctx, "the first process of the first store, solver " + sv, first_store, rows((4,)), sv, sv == "rk4")
