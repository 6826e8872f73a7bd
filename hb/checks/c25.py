"""C25: the basin outlet collects every outlet flux exactly once.

Model structures are put together by evaluating the settings, basin and builder code. Every
flux to the outlet then carries an unknown amount, and the discharge computed from them is
compared with the sum of those amounts, each weighted by the area it comes from."""
from .. import vals as V
from ..vals import mk, num, VOID, TRUE
from ..scene import *
from ..bench import Missing
from ..structures import Built, STRUCTURES
from ..ir import Broken

ASSUMPTIONS = ["The structures in hb/structures.py stand for all: every kind of origin (basin store, unit store, land cover, snowpack, unit splitter, basin splitter) sends water to the outlet in one of them.",
               "Fractions and areas have the numbers of these structures; amounts are unknown."]

# per structure: the (owner, element) pairs that send water to the outlet; a unit id or 0 for the basin
WANT = {
    "socont": {"basin": [("glacier_area_rain_snowmelt_storage", "outflow"), ("glacier_area_icemelt_storage", "outflow")],
               "unit": [("slow_reservoir", "outflow"), ("slow_reservoir", "overflow"), ("slow_reservoir_2", "outflow"), ("surface_runoff", "runoff")]},
    "hbv": {"basin": [("glacier_area_rain_snowmelt_storage", "outflow"), ("glacier_area_icemelt_storage", "outflow")],
            "unit": [("routing", "routing"), ("lake_storage", "outflow")]},
    "gr4j": {"basin": [], "unit": [("uh_input", "routing")]},
    "outlets": {"basin": [("store", "outflow"), ("deep", "outflow"), ("deep", "second"), ("gather", "")],
                "unit": [("glacier_snowpack", "seep"), ("open", "runoff"), ("glacier", "melt"), ("upper", "outflow"), ("share", "")]},
}


class Outlet:
    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        self.b = b = Built(ctx, name)
        self.w = b.w
        r = b.initialize()
        if not b.clean or b.w.isok(r) is not TRUE:
            raise Broken("the structure %s cannot be initialised in the analysis: %s %s" % (name, V.show(r)[:200], b.w.notes[:3]))
        self.rows = list(self.find())

    def find(self):
        """(flux, share of the basin area, name) for every flux to the outlet that an element owns"""
        b, w = self.b, self.w
        spec = STRUCTURES[self.name]["units"]
        total = sum(u["area"] for u in spec)
        for owner, i in [(b.sub, 0)] + [(u, b.uid(u)) for u in b.units()]:
            u = next((x for x in spec if x["id"] == i), None)
            share = N(num(u["area"])) / N(num(total)) if u else N(1)
            for br in b.bricks(owner):
                k = share
                if w.p.is_a(w.exact[br], "LandCover"):
                    k = share * N(num(dict(u["covers"]).get(b.nm(br), 0)))
                elif w.p.is_a(w.exact[br], "SurfaceComponent"):
                    cover = b.nm(br).rsplit("_", 1)[0]
                    k = share * N(num(dict(u["covers"]).get(cover, 0)))
                for pr in b.processes(br):
                    for f in b.outputs(pr):
                        if w.p.is_a(w.exact[f], "FluxToOutlet"):
                            yield f, k, i, b.nm(br), b.nm(pr)
            for sp in b.splitters(owner):
                for f in b.owned(sp, "Flux"):
                    if w.p.is_a(w.exact[f], "FluxToOutlet"):
                        yield f, share, i, b.nm(sp), ""

    def feed(self, tag):
        """give every outlet flux an unknown amount; the discharge they make"""
        s = N(0)
        for f, k, i, br, pr in self.rows:
            x = nm("%s%s.%d.%s" % (tag, br, i, pr))
            self.w.m(f, "UpdateFlux", x.v)
            s = s + k * x
        return s

    def value(self):
        a = self.w.m(self.b.sub, "GetValuePointer", V.string("outlet"))
        if a.k != "addr":
            raise Missing("outlet value")
        return self.w.load(a.a[0], "double")


def expected(o):
    out = []
    for br, pr in WANT[o.name]["basin"]:
        out.append((0, br, pr))
    for u in STRUCTURES[o.name]["units"]:
        have = None
        for x in o.b.units():
            if o.b.uid(x) == u["id"]:
                have = {o.b.nm(br) for br in o.b.bricks(x)} | {o.b.nm(sp) for sp in o.b.splitters(x)}
        for br, pr in WANT[o.name]["unit"]:
            if br in have:
                out.append((u["id"], br, pr))
    return sorted(out)


def collect(ctx, name):
    o = Outlet(ctx, name)
    b, w = o.b, o.w
    comp = b.w.at(b.sub, "ComputeOutletDischarge")
    got = sorted((i, br, pr) for f, k, i, br, pr in o.rows)
    for e in expected(o):
        ctx.check(got.count(e) == 1, "built", "%s %s" % (name, e), comp, "%s: the output to the outlet of %s %s (unit %d) has %d outlet fluxes instead of one" % (name, e[1], e[2], e[0], got.count(e)))
    s0 = b.snap()
    want = o.feed("a ")
    w.m(b.sub, "ComputeOutletDischarge")
    key = "%s discharge" % name
    apply_judge(ctx, "sum", key, comp, o.value(), want.v, (), "%s: discharge from all fluxes to the outlet:" % name)
    want = o.feed("b ")
    w.m(b.sub, "ComputeOutletDischarge")
    apply_judge(ctx, "anew", "%s second step" % name, comp, o.value(), want.v, (), "%s: discharge of the second step:" % name)
    b.back(s0)
    o.feed("c ")
    step(ctx, o)


def step(ctx, o):
    """in a time step the discharge is computed from the amounts of that step"""
    b, w = o.b, o.w
    seen, done = [], []

    def call(ev, e, n, recv, args, tgt):
        s = n.rsplit("::", 1)[-1]
        if s == "Solve":
            seen.append(n)
            call.want = o.feed("z ")
            return TRUE
        if s == "Compute" and recv is not None and w.exact.get(recv) and w.p.is_a(w.exact[recv], "Splitter"):
            done.append((recv, bool(seen)))
            return VOID
        if s == "ApplyDirectChanges":
            return VOID
        return base(ev, e, n, recv, args, tgt) if base else None
    base = w.hooks.get("call")
    w.hooks = dict(w.hooks, call=call)
    at = w.at(b.processor, "ProcessTimeStep")
    try:
        r = w.m(b.processor, "ProcessTimeStep", num(1))
    finally:
        w.hooks = dict(w.hooks, call=base)
    if not seen:
        ctx.und("step", at, "the solver call was not recognised")
        return
    for owner, i in [(b.sub, 0)] + [(u, b.uid(u)) for u in b.units()]:
        for sp in b.splitters(owner):
            c = [x for x in done if x[0] is sp]
            ctx.check(None if any(x[0].k != "obj" for x in done) else len(c) == 1 and not c[0][1], "splitters", "%s splitter %s %d" % (o.name, b.nm(sp), i), at,
                      "%s: in a time step, the splitter %s of %s is computed %d times before the solver, so that what it sends to the outlet is %s" % (
                          o.name, b.nm(sp), "unit %d" % i if i else "the basin", len([x for x in c if not x[1]]), "counted several times" if len(c) > 1 else "that of another step"))
    apply_judge(ctx, "step", "%s step" % o.name, at, o.value(), call.want.v, (), "%s: discharge at the end of a time step, from the amounts of that step:" % o.name)
    ctx.check(None if r.k != "bool" and r not in (TRUE, V.FALSE) else r is TRUE, "step", "%s result" % o.name, at, "%s: a step without failure does not succeed" % o.name)


def run(ctx):
    ctx.rule("built", "each output of a brick or splitter to the outlet makes exactly one outlet flux")
    ctx.rule("sum", "the discharge is the sum of the amounts of all outlet fluxes, each weighted by the share of the basin area it comes from")
    ctx.rule("anew", "the discharge of a step does not contain that of the previous one")
    ctx.rule("splitters", "every splitter, of units and basin, is computed once per step before the stores are solved")
    ctx.rule("step", "a time step computes the discharge after all fluxes of that step")
    for n in WANT:
        ctx.each("sum", n, collect, ctx, n)
