"""C26: hydro unit properties are delivered in the unit that is asked for.

A property with an unknown value is made in every unit name the code or the package uses, and
asked for in every such name: what comes back is the converted value, or, for a pair that is not
convertible, nothing (not a number, or an error). The conversions the code offers have to be
offered under every name of the unit. A unit with several properties then has to hand out the
one that is named, and the components that read one have to get it in the unit they assume."""
import math
from fractions import Fraction
from .. import vals as V
from ..vals import mk, num
from ..scene import *
from ..bench import Bench, Missing
from ..structures import Built, proc
from ..ir import Broken, strip_ty

ASSUMPTIONS = ["The unit names listed in the check (those of the code, plus the usual ones of lengths and areas) stand for all.",
               "Tangents and the value of pi are taken as written; rounding is not looked at."]
PI = num(Fraction("3.141592653589793"))
PID = num(Fraction(math.pi))
DEG, RAD, PER, MM = ("degrees", "degree", "deg", "°"), ("radians", "rad"), ("percent", "%"), ("m/m", "m_per_m")
M2, HA, KM2 = ("m2", "m^2"), ("ha",), ("km2", "km^2")
OTHER = ("m", "km", "mm", "furlong")
LIN = {}
for g, f in ((M2, 1), (HA, 10000), (KM2, 1000000)):
    for u in g:
        LIN[u] = ("area", Fraction(f))
for u, f in (("m", 1), ("km", 1000), ("mm", Fraction(1, 1000))):
    LIN[u] = ("length", Fraction(f))
REQUIRED = {(a, b) for x, ys in ((DEG, (DEG, RAD, PER, MM)), (M2, (HA, KM2))) for a in x for y in ys for b in y}
ALL = DEG + RAD + PER + MM + M2 + HA + KM2 + OTHER


def angle(v, a, b, pi):
    """the value of an angle or slope given in a, in b (None: not expressed here)"""
    v = Name(v)
    if (a in DEG and b in DEG) or (a in RAD and b in RAD) or (a in PER and b in PER) or (a in MM and b in MM):
        return v
    if a in DEG + RAD:
        rad = v * Name(pi) / 180 if a in DEG else v
        if b in RAD:
            return rad
        if b in DEG:
            return v * 180 / Name(pi)
        t = Name(V.fn_atom("tan", rad.v))
        return t * 100 if b in PER else t
    if b in DEG + RAD:
        t = v / 100 if a in PER else v
        r = Name(V.fn_atom("atan", t.v))
        return r * 180 / Name(pi) if b in DEG else r
    return v / 100 if a in PER else v * 100


def expected(v, a, b, pi):
    ang = DEG + RAD + PER + MM
    if b == "" or a == b:
        return Name(v)
    if a in ang and b in ang:
        return angle(v, a, b, pi)
    if a in LIN and b in LIN and LIN[a][0] == LIN[b][0]:
        return Name(v) * LIN[a][1] / LIN[b][1]
    return None


def is_nan(v):
    return v is not None and v is V.nat(("nan",))


def pair(ctx, a, b):
    w = Bench(ctx)
    v = nm("value")
    w.assume(v > 1, v < 80)
    fid = [m["id"] for m in ctx.prog.cls["HydroUnitProperty"]["methods"] if m["name"] == "HydroUnitProperty" and len(ctx.prog.fn.get(m["id"], {}).get("params", ())) == 3
           and strip_ty(ctx.prog.fn[m["id"]]["params"][1]["ty"]) in ("double", "float")]
    if len(fid) != 1:
        raise V.Unknown("no constructor of a property with a value")
    p = V.obj("new", *w.fresh("HydroUnitProperty"))
    w.exact[p] = "HydroUnitProperty"
    w.construct("HydroUnitProperty", fid[0], [V.string("slope"), v.v, V.string(a)], p)
    n0 = len(w.throws)
    pc = w.st.pc
    r = w.m(p, "GetValue", V.string(b))
    refused = len(w.throws) > n0 and w.st.pc is V.FALSE or is_nan(r)
    key = "'%s' as '%s'" % (a, b)
    at = w.at(p, "GetValue")
    want = expected(v.v, a, b, PI)
    if want is None:
        known = refused or judge(r, v.v, w.facts)[0] != "undecided" or None
        ctx.check(True if refused else (False if known else None), "refused", key, at,
                  "A property in '%s' asked for in '%s' gives %s" % (a, b, V.show(r)[:100]))
        return
    if refused:
        if a == b or b == "" or (a, b) in REQUIRED:
            ctx.bad("converted", key, at, "A property in '%s' cannot be had in '%s'" % (a, b))
        else:
            ctx.ok("converted", at, key + " is refused")
        return
    if judge(r, want.v, w.facts)[0] != "held":
        alt = expected(v.v, a, b, PID)
        if judge(r, alt.v, w.facts)[0] == "held":
            want = alt
    apply_judge(ctx, "converted", key, at, r, want.v, w.facts, "a property of value 'value' in '%s' asked for in '%s':" % (a, b))


def units(ctx):
    """the units of a model hand out the property that is named, of their own"""
    us = [{"id": i, "area": 100.0, "covers": (("open", 1.0),), "props": (("elevation", 100.0 * i, "m"), ("slope", 5.0 * i, "degrees"), ("area_glacier", 3.0 * i, "m2")), "sprops": (("aspect_class", "NS"[i % 2]), ("name", "u%d" % i))} for i in (4, 2, 7)]

    def tweak(w):
        w.s("GeneratePrecipitationSplitters", False, "snow_rain:linear")
        w.s("AddLandCoverBrick", "open", "generic_land_cover")
        w.s("SelectHydroUnitBrick", "open")
        proc(w, "feed", "percolation:constant", "outlet")
        w.s("AddLoggingToItem", "outlet")
    b = Built(ctx, "blank", units=us, tweak=tweak, log_all=False)
    w = b.w
    r = b.initialize()
    if not b.clean or w.isok(r) is not V.TRUE:
        raise V.Unknown("the structure cannot be initialised in the analysis")
    for u in b.units():
        i = b.uid(u)
        at = w.at(u, "GetPropertyDouble")
        t = math.radians
        for name, unit, want in (("elevation", "m", 100 * i), ("slope", "degrees", 5 * i), ("area_glacier", "m2", 3 * i), ("elevation", "", 100 * i), ("slope", "", 5 * i),
                                 ("area_glacier", "ha", Fraction(3 * i, 10000)), ("area_glacier", "km2", Fraction(3 * i, 1000000))):
            for get in ("GetPropertyDouble", "GetPropertyFloat"):
                if not w.has(u, get):
                    continue
                g = w.m(u, get, V.string(name), V.string(unit))
                apply_judge(ctx, "own property", "%s of unit %d in '%s' by %s" % (name, i, unit, get), at, g, num(want), w.facts, "%s of unit %d in '%s':" % (name, i, unit))
        g = w.m(u, "GetPropertyString", V.string("aspect_class"))
        ctx.check(g is V.string("NS"[i % 2]), "own property", "aspect of unit %d" % i, at, "the aspect of unit %d is %s" % (i, V.show(g)))
        s = w.st.copy()
        n0 = len(w.throws)
        try:
            g = w.m(u, "GetPropertyDouble", V.string("missing"), V.string("m"))
            threw = w.st.pc is V.FALSE and len(w.throws) > n0
            ctx.check(True if threw or is_nan(g) else (False if judge(g, num(0), w.facts)[0] != "undecided" else None), "own property", "missing property of unit %d" % i, at,
                      "a property that was never given has the value %s" % V.show(g)[:80])
        finally:
            w.st = s


def readers(ctx):
    """what the components that read a property ask for: a unit in which the value has the meaning of their formulas"""
    use = {"ProcessRunoffSocont": ("slope", MM), "ProcessLateralSnowSlide": ("slope", DEG), "ProcessLateralSnowRedistributionFrey": ("slope", DEG), "SplitterSnowRainCemaNeige": ("elevation", ("m",))}
    seen = 0
    for cls, (name, ok) in use.items():
        if cls not in ctx.prog.cls:
            continue
        asked = []

        def call(ev, e, n, recv, args, tgt, asked=asked):
            if n.rsplit("::", 1)[-1] in ("GetPropertyDouble", "GetPropertyFloat") and len(args) > 0:
                asked.append(tuple(a.a[0] if a is not None and a.k == "str" else None for a in args))
                return nm("property").v
            return None
        w = Bench(ctx, hooks={"call": call})
        try:
            o = w.new(cls, *[V.obj("container", "x") for _ in range(0 if cls.startswith("Splitter") else 1)])
            u = w.new("HydroUnit")
            if cls.startswith("Splitter"):
                w.m(o, "SetHydroUnitProperties", u)
            else:
                w.m(o, "SetHydroUnitProperties", u, w.new("Storage"))
        except V.Unknown as x:
            if not asked:
                raise
        for a in asked:
            if a[0] is None or len(a) > 1 and a[1] is None:
                ctx.und("readers", w.at(o, "SetHydroUnitProperties"), "%s: %s" % (cls, a))
                continue
            unit = a[1] if len(a) > 1 else ""
            if a[0] != name:
                continue
            seen += 1
            ctx.check(unit in ok, "readers", "%s %s" % (cls, name), w.at(o, "SetHydroUnitProperties"), "%s takes the %s in '%s'; its formula is in %s" % (cls, name, unit, ok[0]))
    if not seen:
        ctx.und("readers", "", "no reader of a property was recognised")


def run(ctx):
    ctx.rule("converted", "a property asked for in a unit it can be converted to is converted; its own unit and no unit give the value as it is")
    ctx.rule("refused", "a property asked for in a unit of another quantity is refused")
    ctx.rule("own property", "each unit hands out its own property of that name")
    ctx.rule("readers", "components ask for the unit their formulas assume")
    if "HydroUnitProperty" not in ctx.prog.cls:
        raise Broken("class HydroUnitProperty not found")
    for a in ALL:
        for b in ALL + ("",):
            ctx.each("converted", a, pair, ctx, a, b)
    ctx.each("own property", "HydroUnit", units, ctx)
    ctx.each("readers", "SetHydroUnitProperties", readers, ctx)
