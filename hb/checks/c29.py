"""C29: snow redistribution between units conserves snow.

Units with several covers of other areas, connected in several networks, get every kind of snow
redistribution, at once or with a delay. One snowpack at a time holds an unknown amount of snow
on a steep unit; the others lie flat and hold known amounts, some nothing, some more than is
allowed. After a whole step (and one that delivers what is under way) what the snowpack lost has
to be what the others gained, converted by the areas of the covers, shared by the weights of
the connections and the fractions of the covers; all else has to be as it was."""
from fractions import Fraction
from .. import vals as V
from ..vals import mk, num, nat, TRUE, FALSE
from ..scene import *
from ..bench import Missing
from ..structures import Built, proc
from ..ir import Broken

ASSUMPTIONS = ["Networks, areas and fractions listed in the check stand for all; the covers keep their areas in the step.",
               "There is no snowfall and nothing melts. What is moved in a step is the subject of C11."]
F = Fraction
SNOW = mk("enum", "ContentType::Snow")
NAMES = ("glacier", "ground", "debris")
KINDS = ("transport:snow_slide", "transport:snow_redistribution_frey", "transport:snow_redistribution_frey_dynamic")
# id, area, fractions of the covers
ROWS = ((5, 200.0, (0.5, 0.25, 0.25)), (2, 400.0, (0.25, 0.75, 0.0)), (9, 100.0, (0.0, 0.5, 0.5)), (7, 800.0, (0.25, 0.5, 0.25)))
AREA = {r[0]: F(r[1]) for r in ROWS}
FRAC = {(r[0], n): F(f) for r in ROWS for n, f in zip(NAMES, r[2])}
# giver, receiver, weight
NETS = {"one to one": ((5, 2, 1.0),), "one to many": ((2, 5, 0.5), (2, 7, 0.25), (2, 9, 0.25)),
        "part of it": ((9, 7, 0.5), (7, 9, 0.25)), "a chain": ((5, 9, 1.0), (9, 2, 0.75), (2, 7, 1.0)), "apart": ((7, 9, 1.0), (5, 2, 1.0))}
LOW, DEEP = 1, 60000


class Slope:
    def __init__(self, ctx, kind, net, giver, inst=True, skip=False):
        self.ctx, self.kind, self.net, self.giver = ctx, kind, NETS[net], giver
        self.skip = skip
        V.NUMERIC[0] = True
        rows = [{"id": i, "area": a, "covers": tuple(zip(NAMES, fr)), "props": (("elevation", 2000.0, "m"), ("slope", 60.0 if i == giver else 0.0, "degrees")), "sprops": (("aspect_class", "N"),)} for i, a, fr in ROWS]

        def tweak(w):
            if inst:
                w.s("AddSnowRedistribution", kind, skip)
            else:
                for n in NAMES:
                    if skip and n != "ground":
                        continue
                    w.s("SelectHydroUnitBrickByName", n + "_snowpack")
                    proc(w, "snow_redistribution", kind, "lateral:snow")
            for c in self.net:
                w.b("AddLateralConnection", *c)
        values = {"exp": -1, "coeff": 400, "min_slope": 10, "max_slope": 50, "min_snow_holding_depth": 80, "max_snow_depth": 20000,
                  "correction": 1, "snow_holding_capacity": 80, "rho_max": 450, "snow_density": 250, "rho_min": 100, "rho_fresh_max": 300,
                  "rho_settling": 0, "rho_scale": 1, "t_scale": 1, "prec_t_start": 0, "prec_t_end": 2, "melting_temperature": 0, "degree_day_factor": 3}
        self.b = b = Built(ctx, "ground", units=rows, log_all=False, tweak=tweak, values=values)
        self.w = w = b.w
        w.named_finite = True
        r = b.initialize()
        if not b.clean or w.isok(r) is not TRUE:
            raise Broken("the structure cannot be initialised in the analysis (%s)" % V.show(r)[:200])
        kinds = b.forcing_kinds()
        for r in b.forcing(kinds, values=lambda k, i, t: num(-10 if k == "Temperature" else 0)):
            pass
        self.packs = {}
        for u in b.units():
            for x in b.bricks(u):
                n = b.nm(x)
                if n.endswith("_snowpack"):
                    self.packs[(b.uid(u), n[:-len("_snowpack")])] = x
        if set(self.packs) != set(FRAC):
            raise Broken("snowpacks not found")
        self.at = w.at(b.processor, "ProcessTimeStep")
        self.s0 = b.snap()

    def snow(self, k):
        return self.w.m(self.packs[k], "GetContent", SNOW)

    def set(self, k, v):
        self.w.m(self.packs[k], "UpdateContent", v if isinstance(v, V.V) else num(v), SNOW)

    def step(self):
        V.reset_budget()
        return self.w.m(self.b.processor, "ProcessTimeStep", num(1))

    def weights(self, k, full):
        """share of each snowpack in what leaves the snowpack k"""
        i, n = k
        out = {}
        if FRAC[k] and (not self.skip or n == "ground"):
            for g, r, w in self.net:
                if g == i:
                    for m in NAMES:
                        if FRAC[(r, m)] and (r, m) not in full:
                            out[(r, m)] = out.get((r, m), 0) + F(w) * FRAC[(r, m)]
        return out


REGIMES = ((1, 19), (21, 1000), (1100, 2000))


def one(ctx, s, k, full, what, regime):
    """an unknown amount in one snowpack"""
    lo, hi = REGIMES[regime]
    w, b = s.w, s.b
    b.back(s.s0)
    x = nm("snow on %s of %d, %d to %d mm%s" % (k[1], k[0], lo, hi, "".join(" %s%d" % (n, i) for i, n in full)))
    w.assume(x > lo, x < hi)
    start = {}
    for p in s.packs:
        start[p] = x.v if p == k else num(DEEP if p in full else LOW if FRAC[p] else 0)
        s.set(p, start[p])
    key = "%s: %s on %s of %d" % (what, "%d-%d mm" % REGIMES[regime] + (", full: %s" % ", ".join("%s of %d" % (n, i) for i, n in full) if full else ""), k[1], k[0])
    r1 = s.step()
    left = s.snow(k)
    s.set(k, 0)
    r2 = s.step()
    if not b.clean or TRUE not in (r1, r2):
        ctx.und("transfer", s.at, key)
        return
    lost = Name(start[k]) - Name(left)
    ws = s.weights(k, full)
    tot = sum(ws.values())
    for p in s.packs:
        if p == k:
            continue
        if not FRAC[p]:
            # what a cover without area holds does not count
            gain = Name(s.snow(p)) - Name(start[p])
            apply_judge(ctx, "others", "%s to %s of %d" % (key, p[1], p[0]), s.at, gain.v, num(0), w.facts, "%s: the snowpack on %s of unit %d, without area, gains:" % (key, p[1], p[0]))
            continue
        gain = Name(s.snow(p)) - Name(start[p])
        if p in ws:
            apply_judge(ctx, "transfer", "%s to %s of %d" % (key, p[1], p[0]), s.at, (gain * AREA[p[0]] * FRAC[p] * tot).v, (lost * AREA[k[0]] * FRAC[k] * ws[p]).v, w.facts,
                        "%s: volume that %s of unit %d gains, times the sum of the shares:" % (key, p[1], p[0]))
        else:
            apply_judge(ctx, "others", "%s to %s of %d" % (key, p[1], p[0]), s.at, gain.v, num(0), w.facts, "%s: the snowpack on %s of unit %d gains:" % (key, p[1], p[0]))
    if not ws or not regime:
        apply_judge(ctx, "others", key + " stays", s.at, lost.v, num(0), w.facts, "%s: the snowpack loses:" % key)
    else:
        moves(ctx, s, key, lost)


def moves(ctx, s, key, lost):
    """for a deep snowpack on a steep unit something is moved at all"""
    v = V.show(lost.v)
    ctx.check(False if v == "0" else True, "moves", key, s.at, "%s: no snow is moved whatever the depth" % key)


def kind(ctx, k, net, inst, skip, givers, quick):
    for g in givers:
        what = "%s, %s, from %d%s%s" % (k, net, g, "" if inst else ", delayed", ", without glaciers" if skip else "")
        s = Slope(ctx, k, net, g, inst, skip)
        first = [p for p in s.packs if p[0] == g and FRAC[p]]
        for p in first[-1:] if quick else first:
            for r in (1,) if p[1] != "ground" else (0, 1, 2):
                one(ctx, s, p, (), what, r)
        # what is full would slide itself where it can
        recv = sorted(p for p in s.weights((g, "ground"), ()) if not s.weights(p, ()))
        if len(s.weights((g, "ground"), ())) > 1 and recv:
            one(ctx, s, (g, "ground"), recv[:1], what, 1)
            if not quick and len(recv) > 1:
                one(ctx, s, (g, "ground"), recv[1:], what, 1)


def run(ctx):
    ctx.rule("transfer", "the snow lost by a snowpack arrives at the others, shared by weight and fraction, converted by areas")
    ctx.rule("others", "snowpacks that are no receivers keep what they have")
    ctx.rule("moves", "a snowpack on a steep unit with a receiver gives snow away")
    for c in ("ProcessLateral", "SubBasin", "Processor"):
        if c not in ctx.prog.cls:
            raise Broken("class %s not found" % c)
    slide, frey, dyn = KINDS
    jobs = []
    for net in NETS:
        gs = sorted({g for g, r, w in NETS[net]}) + ([7] if net == "one to one" else [])
        for g in gs:
            jobs.append(("transfer", "%s %d" % (net, g), kind, ctx, slide, net, True, False, [g], False))
        jobs.append(("transfer", "%s delayed" % net, kind, ctx, slide, net, False, False, gs[:1], True))
    jobs.append(("transfer", "skip", kind, ctx, slide, "one to many", True, True, [2], False))
    for k in (frey, dyn):
        jobs.append(("transfer", k, kind, ctx, k, "one to many", True, False, [2], False))
        jobs += [("transfer", k + " part", kind, ctx, k, "part of it", False, False, [g], True) for g in (9, 7)]
        jobs.append(("transfer", k + " skip", kind, ctx, k, "one to many", True, True, [2], True))
    for j in jobs:
        ctx.each(*j)
