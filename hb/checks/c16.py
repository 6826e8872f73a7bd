"""C16: each recorded series holds the quantity its label names.

Runs of whole structures are evaluated with the work inside a time step left out: in its place
every store, flux and land cover of every unit and of the basin is given a value named after
what it is (unit, brick, process, output, step). Each cell of what the run hands over at its end,
and each series a caller asks for by label, then has to be the value of the quantity the label
names in that unit and step. The totals over the basin are compared with the sums of those
values, weighted by the areas of units and covers."""
from .. import vals as V
from ..vals import mk, num, nat, TRUE
from ..scene import *
from ..structures import Built, proc
from ..runs import Trace, Records, value_of, same, constant
from ..ir import Broken

ASSUMPTIONS = ["The structures in hb/structures.py and one with two variants that list covers, stores and logged items in different orders stand for all.",
               "Quantities a routing process keeps to itself are only followed to the process they belong to.",
               "Totals are looked at with the fractions recorded; a store that is not limited in size counts like any other."]
N = 2
PARTLY = ({"rock:runoff:output", "rock:water_content", "meadow:runoff:output", "meadow:water_content", "soil:water_content"},
          {"ice:ice_content", "ice:water_content", "ice:melt:output", "wood_snowpack:snow_content", "litter:water_content", "wood:runoff:output", "wood:water_content", "soil:outflow:output"})
G = "generic_land_cover"


def orders(w):
    """two variants with different covers in different orders, part of the items logged"""
    def first(names):
        w.s("GeneratePrecipitationSplitters", True, "snow_rain:linear")
        for n, t in names:
            w.s("AddLandCoverBrick", n, t)
        w.s("GenerateSnowpacks", "melt:degree_day")
    def cover(n, target, log):
        w.s("SelectHydroUnitBrick", n)
        proc(w, "runoff", "outflow:linear", target)
        if log:
            w.s("AddProcessLogging", "output")
        proc(w, "loss", "et:open_water")
        if log:
            w.s("AddBrickLogging", "water_content")
    first([("rock", G), ("meadow", G)])
    cover("rock", "outlet", True)
    cover("meadow", "soil", True)
    w.s("AddHydroUnitBrick", "soil", "storage")
    proc(w, "outflow", "outflow:linear", "aquifer")
    w.s("AddBrickLogging", "water_content")
    w.s("AddSubBasinBrick", "karst", "storage")
    proc(w, "fast", "outflow:linear", "outlet")
    w.s("AddProcessLogging", "output")
    proc(w, "slow", "outflow:linear", "aquifer")
    w.s("AddSubBasinBrick", "aquifer", "storage")
    w.s("AddBrickLogging", "water_content")
    proc(w, "outflow", "outflow:linear", "outlet")
    w.s("AddProcessLogging", "output")
    w.s("AddLoggingToItem", "outlet")
    w.s("AddStructure")
    first([("ice", "glacier"), ("meadow", G), ("wood", G)])
    w.s("SelectHydroUnitBrick", "ice")
    w.s("AddBrickParameter", "infinite_storage", 0.0)
    w.s("AddBrickLogging", "ice_content")
    w.s("AddBrickLogging", "water_content")
    proc(w, "melt", "melt:degree_day", "outlet", True)
    w.s("AddProcessLogging", "output")
    w.s("SelectHydroUnitBrick", "wood_snowpack")
    w.s("AddBrickLogging", "snow_content")
    w.s("AddHydroUnitBrick", "litter", "storage")
    w.s("AddBrickLogging", "water_content")
    proc(w, "outflow", "outflow:linear", "outlet")
    cover("wood", "litter", True)
    cover("meadow", "litter", False)
    w.s("AddHydroUnitBrick", "soil", "storage")
    proc(w, "outflow", "outflow:linear", "outlet")
    w.s("AddProcessLogging", "output")
    w.s("AddLoggingToItem", "outlet")


def ORDER_UNITS():
    P, S = (("elevation", 2000.0, "m"), ("slope", 20.0, "degrees")), (("aspect_class", "N"),)
    rows = ((8, 100.0, (("wood", 0.5), ("ice", 0.25), ("meadow", 0.25))), (3, 300.0, (("meadow", 0.75), ("rock", 0.25))), (5, 400.0, (("rock", 0.5), ("meadow", 0.5))))
    return [{"id": i, "area": a, "covers": c, "props": P, "sprops": S} for i, a, c in rows]


class Named:
    """a run in which every quantity has the name of what it is"""

    def __init__(self, ctx, name, log=True, fractions=True):
        self.log = log
        self.title = name + ("" if log else ", little recorded") + ("" if fractions or log else ", no fractions")
        kw = {"start": "2020-01-01", "end": "2020-01-0%d" % N, "log_all": log}
        if name == "orders":
            self.b = Built(ctx, "blank", units=ORDER_UNITS(), tweak=orders, **kw)
        else:
            self.b = Built(ctx, name, **kw)
        b, w = self.b, self.b.w
        self.w = w
        w.named_finite = True
        if fractions and not log:
            w.s("SetRecordFractions", True)
        r = b.initialize()
        if not b.clean or w.isok(r) is not TRUE:
            raise Broken("%s cannot be initialised in the analysis: %s" % (self.title, V.show(r)[:200]))
        got = b.forcing(b.forcing_kinds(), n=N, start=58849)
        self.at = w.at(b.logger, "Record")
        self.want = {}           # (step, unit or 0, label) -> value; step 0: initial
        self.inner = {}          # (unit or 0, brick, process) -> process
        self.weight = {}         # (unit, brick) -> fraction of the cover it belongs to
        self.area = {b.uid(u): u_area for u, u_area in ((u, V.p_constval(w.m(u, "GetArea").a[0])) for u in b.units())}
        self.catalog()
        self.set(0)
        self.t = Trace(b, during=self.set).run()

    def catalog(self):
        b, w = self.b, self.w
        self.slots = []          # (owner id, label, location)
        self.covers = []
        for o, i in [(b.sub, 0)] + [(u, b.uid(u)) for u in b.units()]:
            for x in b.bricks(o):
                n = b.nm(x)
                for kind, get in (("water", "GetWaterContainer"), ("snow", "GetSnowContainer"), ("ice", "GetIceContainer")):
                    if w.has(x, get):
                        l = w.m(w.m(x, get), "GetContentPointer")
                        if l.k != "addr":
                            raise V.Unknown("no location of the content of %s" % n)
                        self.slots.append((i, "%s:%s_content" % (n, kind), l.a[0]))
                for p in b.processes(x):
                    self.inner[i, n, b.nm(p)] = p
                    outs = b.outputs(p)
                    for k, f in enumerate(outs):
                        l = w.m(f, "GetAmountPointer").a[0]
                        self.slots.append((i, "%s:%s:output_%d" % (n, b.nm(p), k), l))
                        if k == 0:
                            self.slots.append((i, "%s:%s:output" % (n, b.nm(p)), l))
                if w.p.is_a(w.exact[x], "LandCover"):
                    self.covers.append((i, n, x, w.m(x, "GetAreaFractionPointer").a[0]))
            for s in b.splitters(o):
                outs = [w.load(l, "obj") if l.k == "loc" else l for l in b.owned(s, "Flux")]
                for k, f in enumerate(outs):
                    l = w.m(f, "GetAmountPointer").a[0]
                    for lab in ("output_%d" % (k + 1), ("rain", "snow")[k] if k < 2 else None):
                        if lab:
                            self.slots.append((i, "%s:%s" % (self.splitter_name(s, o, b), lab), l))
        self.slots.append((0, "outlet", w.m(b.sub, "GetValuePointer", V.string("outlet")).a[0]))

    def splitter_name(self, s, o, b):
        return b.text(s, "GetName") if self.w.has(s, "GetName") else "splitter"

    def set(self, k):
        """every quantity gets its name; fractions stay as they are"""
        w = self.w
        seen = {}
        for i, lab, l in self.slots:
            if l not in seen:
                v = seen[l] = nm("%s of %s after %d" % (lab, i or "basin", k))
                w.assume(v > 1, v < 1000)
                w.st.s[l] = v.v
            self.want[k, i, lab] = seen[l].v
        for i, n, x, l in self.covers:
            v = nm("fraction of %s of %d in step %d" % (n, i, max(k, 1)))     # nothing changes a fraction before the first step
            w.assume(v > 0, v < 1)
            w.st.s[l] = self.want[k, i, "fraction " + n] = v.v
        for l in self.t_slots():
            if l not in seen:
                w.st.s[l] = nat(("name", "inner %s after %d" % (V.show(l), k)))

    def logged(self, i, lab):
        """whether that unit records it"""
        if self.log or i == 0 or lab.startswith("fraction "):
            return True
        return lab in PARTLY[1 if i == 8 else 0]

    def t_slots(self):
        from ..runs import pointed
        if not hasattr(self, "_slots"):
            self._slots = [l for l in pointed(self.b)]
            fr = {l for i, n, x, l in self.covers}
            self._slots = [l for l in self._slots if l not in fr]
            self._inner = {}
            for l in self._slots:
                for k in range(0, N + 1):
                    self._inner[nat(("name", "inner %s after %d" % (V.show(l), k)))] = (l, k)
        return self._slots


def is_nan(x):
    return V.show(x) == "nan" or x.k == "uninit"


def cell(ctx, c, rule, key, i, lab, k, x, where):
    """one recorded cell against the quantity of the label"""
    want = c.want.get((k, i, lab))
    if want is not None and not c.logged(i, lab) and is_nan(x):
        ctx.ok(rule, where, "%s: '%s' is not recorded for unit %s" % (c.title, lab, i))
        return
    step = "step %d" % k if k else "the initial state"
    who = "unit %d" % i if i else "the basin"
    if want is None:
        parts = lab.split(":")
        p = c.inner.get((i, parts[0], parts[1])) if len(parts) == 3 else None
        if p is not None:
            l = c._inner.get(x)
            if l is None:
                ctx.check(False if x in c.known or is_nan(x) else None, rule, key, where, "%s: '%s' of %s in %s holds %s" % (c.title, lab, who, step, V.show(x)[:120]))
            else:
                ctx.check(l[0].a[1] == p and l[1] == k, rule, key, where, "%s: '%s' of %s in %s holds a quantity of another process or step" % (c.title, lab, who, step))
            return
        if any(w[2] == lab for w in c.want if w[1] != 0) or any(q[1] == parts[0] for q in c.inner) or i:
            ctx.check(True if is_nan(x) else (False if x in c.known else None), rule, key, where, "%s: '%s' of %s in %s holds %s although there is no such thing" % (c.title, lab, who, step, V.show(x)[:120]))
        else:
            ctx.und(rule, where, "%s: label '%s' is not understood" % (c.title, lab))
        return
    ctx.check(same(x, want), rule, key, where, "%s: '%s' of %s in %s holds %s instead of %s" % (c.title, lab, who, step, V.show(x)[:120], V.show(want)))


def text(v):
    return v.a[0] if v.k == "str" else V.show(v).strip("'")


def recorded(ctx, name, log, fractions):
    c = Named(ctx, name, log, fractions)
    c.known = set(c.want.values())
    b, w, t = c.b, c.w, c.t
    if not b.clean or t.written is None or len(t.written) != 11 or t.ok is not TRUE:
        ctx.und("records", c.at, "%s: the run was not followed to its end (%s)" % (c.title, w.notes[:2]))
        return
    r = Records(t.written)
    ids = [V.p_constval(x.a[0]) for x in r.ids.a]
    for what, labels, values in (("basin", r.blabels, r.bvalues), ("unit", r.ulabels, r.uvalues), ("fraction", r.flabels, r.fvalues)):
        ls = [text(x) for x in labels.a]
        ctx.check(len(ls) == len(values.a), "records", "%s number %s" % (c.title, what), c.at, "%s: %d labels for %d series (%s)" % (c.title, len(ls), len(values.a), what))
        ctx.check(len(set(ls)) == len(ls), "records", "%s twice %s" % (c.title, what), c.at, "%s: a label stands for two series: %s" % (c.title, ls))
        for li, lab in enumerate(ls[:len(values.a)]):
            for k in range(min(N, len(values.a[li].a))):
                row = values.a[li].a[k]
                for u, x in enumerate(row.a if row.k == "vec" else [row]):
                    i = 0 if what == "basin" else ids[u]
                    cell(ctx, c, "records", "%s %s %s %s %d" % (c.title, what, lab, i, k), i, ("fraction " if what == "fraction" else "") + lab, k + 1, x, c.at)
    ctx.check(sorted(ids) == sorted(c.area), "records", "%s ids" % c.title, c.at, "%s: the units recorded are %s" % (c.title, ids))
    for u, x in enumerate(r.areas.a):
        ctx.check(same(x, num(c.area.get(ids[u], -1))), "records", "%s area %s" % (c.title, ids[u]), c.at, "%s: the area recorded for unit %s is %s" % (c.title, ids[u], V.show(x)))
    # everything asked for is there
    have = {text(x) for x in r.ulabels.a}
    if log:
        for i, lab, l in c.slots:
            short = lab.split(":")
            if i and len(short) == 2 and short[1] == "water_content" or i and len(short) == 3 and short[2] == "output" and False:
                ctx.check(lab in have, "records", "%s missing %s" % (c.title, lab), c.at, "%s: everything is to be recorded, but '%s' is not" % (c.title, lab))
        fr = {text(x) for x in r.flabels.a}
        for i, n, x, l in c.covers:
            ctx.check(n in fr, "records", "%s missing fraction %s" % (c.title, n), c.at, "%s: the fraction of '%s' is not recorded" % (c.title, n))
    asked(ctx, c, r, ids)
    totals(ctx, c, r, ids)


def asked(ctx, c, r, ids):
    """what the model hands out for a label"""
    b, w = c.b, c.w
    for get, labels, pre in (("GetHydroUnitValues", r.ulabels, ""), ("GetHydroUnitFractions", r.flabels, "fraction ")):
        for lab in (text(x) for x in labels.a):
            V.reset_budget()
            at = w.at(b.model, get)
            m = w.m(b.model, get, V.string(lab))
            if m.k != "vec" or len(m.a) != N or any(x.k != "vec" or len(x.a) != len(ids) for x in m.a):
                ctx.und("asked for", at, "%s: %s(%s) gives %s" % (c.title, get, lab, V.show(m)[:80]))
                continue
            for k in range(N):
                for u, x in enumerate(m.a[k].a):
                    cell(ctx, c, "asked for", "%s %s %s %s %d" % (c.title, get, lab, ids[u], k), ids[u], pre + lab, k + 1, x, at)
    if ("outlet" in [text(x) for x in r.blabels.a]):
        at = w.at(b.model, "GetOutletDischarge")
        m = w.m(b.model, "GetOutletDischarge")
        for k in range(N):
            if m.k == "vec" and len(m.a) == N:
                cell(ctx, c, "asked for", "%s outlet %d" % (c.title, k), 0, "outlet", k + 1, m.a[k], at)


def totals(ctx, c, r, ids):
    b, w = c.b, c.w
    A = sum(c.area.values())
    recorded_units = {text(x) for x in r.ulabels.a}
    recorded_basin = {text(x) for x in r.blabels.a}
    fr = {text(x) for x in r.flabels.a}
    if not fr:
        return

    def cover(k, i, brick):
        for j, n, x, l in c.covers:
            if j == i and (brick == n or brick in (n + "_snowpack", n + "_canopy")):
                return c.want[k, i, "fraction " + n]
        return num(1)

    def total(k, suffix):
        s = num(0)
        for (kk, i, lab), v in c.want.items():
            if kk != k or not lab.endswith(suffix):
                continue
            if i == 0 and lab in recorded_basin:
                s = V.add(s, v)
            if i and lab in recorded_units and c.logged(i, lab):
                s = V.add(s, V.mul(v, V.mul(cover(k, i, lab.split(":")[0]), num(c.area[i] / A))))
        return s
    for get, suffix in (("GetTotalWaterStorageChanges", ":water_content"), ("GetTotalSnowStorageChanges", ":snow_content"), ("GetTotalGlacierStorageChanges", ":ice_content")):
        V.reset_budget()
        want = V.sub(total(N, suffix), total(0, suffix))
        got = w.m(b.model, get)
        apply_judge(ctx, "totals", "%s %s" % (c.title, get), w.at(b.model, get), got, want, w.facts, "%s: %s:" % (c.title, get))
    if recorded_basin & {"outlet"}:
        V.reset_budget()
        want = num(0)
        for k in range(1, N + 1):
            want = V.add(want, c.want[k, 0, "outlet"])
        apply_judge(ctx, "totals", "%s outlet" % c.title, w.at(b.model, "GetTotalOutletDischarge"), w.m(b.model, "GetTotalOutletDischarge"), want, w.facts, "%s: the total discharge:" % c.title)
    V.reset_budget()
    want = num(0)
    for (i, n, p), o in c.inner.items():
        lab = "%s:%s:output" % (n, p)
        if w.m(o, "ToAtmosphere") is not TRUE or lab not in (recorded_units if i else recorded_basin) or not c.logged(i, lab):
            continue
        for k in range(1, N + 1):
            v = c.want[k, i, lab]
            want = V.add(want, V.mul(v, V.mul(cover(k, i, n), num(c.area[i] / A))) if i else v)
    apply_judge(ctx, "totals", "%s ET" % c.title, w.at(b.model, "GetTotalET"), w.m(b.model, "GetTotalET"), want, w.facts, "%s: the total evapotranspiration:" % c.title)


def run(ctx):
    ctx.rule("records", "each recorded cell is the quantity its label names, of its unit, in its step; what a unit does not have stays empty")
    ctx.rule("asked for", "a series asked for by label is the one of that label")
    ctx.rule("totals", "totals are the sums over basin and units, weighted by the areas of units and covers")
    for name, log, fr in (("orders", True, True), ("orders", False, True), ("orders", False, False), ("socont-plain", True, True), ("socont", True, True), ("gr4j", True, True), ("hbv", True, True), ("outlets", True, True), ("covers", True, True), ("ground", True, True)):
        V.reset_budget()
        ctx.each("records", name, recorded, ctx, name, log, fr)
