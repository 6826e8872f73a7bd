"""C11: every process kind computes its documented rate law.

Each registered process kind is built the way the model builder does (registry entry,
declared parameters, forcings, connections); the value of its rates is computed by gated
value numbering of the current source and compared, region by region, with the law."""
from fractions import Fraction
from .. import vals as V, procs
from ..vals import mk, obj, num
from ..scene import *
from ..ir import Broken

ASSUMPTIONS = ["The laws are those documented in the headers and docs of the processes; the store is neither infinite nor the parameters null.",
               "Unit hydrographs are compared for the base times listed in the rule (their lengths), all other quantities are symbolic."]


class Law:
    """names available to a law"""

    def __init__(self, kind="water"):
        self.kind = kind

    def q(self, o):
        return nm(o + ".content") + nm(o + ".contentChangeDynamic") + nm(o + ".contentChangeStatic")

    @property
    def Q(self): return self.q(self.kind)
    @property
    def W(self): return self.q("water")
    @property
    def S(self): return self.q("snow")
    @property
    def TQ(self): return self.q("target.water")
    @property
    def cap(self): return nm(self.kind + ".capacity")
    @property
    def tcap(self): return nm("target.water.capacity")
    @property
    def dt(self): return nm("time.timeStepInDays")
    @property
    def T(self): return nm("Temperature")
    @property
    def pet(self): return nm("PET")
    @property
    def rad(self): return nm("Radiation")
    @property
    def ratio(self): return clamp(self.Q / self.cap, 0, 1)
    @property
    def tratio(self): return clamp(self.TQ / self.tcap, 0, 1)

    def __getattr__(self, k):
        return nm(k)


def g_inf(S, P, X):
    sr = S / X
    t = tanh(mn(P / X, 13))
    return sel(either(P <= 0, X <= 0), 0, X * (N(1) - sr * sr) * t / (N(1) + sr * t))


def g_eva(S, E, X):
    sr = S / X
    t = tanh(mn(E / X, 13))
    return sel(either(E <= 0, X <= 0), 0, S * (N(2) - sr) * t / (N(1) + (N(1) - sr) * t))


def g_perc(S, X):
    r = S / X
    return sel(X <= 0, 0, S * (N(1) - (N(1) + r * r * r * r / 25.62890625) ** Fraction(-1, 4)))


PI2 = N(2) * 3.141592653589793


def swat(l):
    ref = sel(V.b_not(V.eq(nm("north_hemisphere").v, num(0))), 81, 264)
    return l.snow_ice_transformation_basal_acc_coeff * (N(1) + sin(PI2 * (l.dayOfYear - ref) / 365)) * l.Q


def cema(l):
    d = l.T - l.melting_temperature
    g = mn(0, (N(1) - l.cold_content_factor) * d)
    ratio = sel(l.mean_annual_snow > 0, mn(1, l.Q / (N(0.9) * l.mean_annual_snow)), 1)
    return sel(either(l.T <= l.melting_temperature, g < 0), 0, (N(0.9) * ratio + 0.1) * l.degree_day_factor * d)


def dd(l, f):
    return sel(l.T < l.melting_temperature, 0, (l.T - l.melting_temperature) * f)


def prod(l):
    P = nm("water.contentChangeStatic")
    S0 = nm("water.content")
    X1 = l.cap
    inf = g_inf(S0, P, X1)
    return (P - inf) + g_perc(S0 + inf - g_eva(S0 + inf, l.pet, X1), X1)


def runoff_socont(l):
    r = N(1000) * l.beta * nm("unit.slope[m/m]") ** Fraction(1, 2) * (l.Q * 2 / 1000) ** Fraction(5, 3) * 86400 / nm("unit.area")
    if "fraction" in l.__dict__:
        r = r / l.__dict__["fraction"]
    return mn(r, l.Q)


# kind -> (brick class, law(l), container)
LAWS = {
    "outflow:linear": ("Storage", lambda l: l.response_factor * l.Q),
    "percolation:constant": ("Storage", lambda l: l.percolation_rate),
    "percolation:gr4j": ("Storage", lambda l: g_perc(l.Q, l.cap)),
    "outflow:direct": ("Storage", lambda l: l.Q),
    "outflow:overflow": ("Storage", lambda l: N(0)),
    "runoff:socont": ("Storage", runoff_socont),
    "infiltration:socont": ("Storage", lambda l: sel(l.tcap <= 0, 0, l.Q * (N(1) - l.tratio * l.tratio))),
    "infiltration:gr4j": ("Storage", lambda l: g_inf(l.TQ, l.Q, l.tcap)),
    "infiltration:hbv": ("Storage", lambda l: sel(l.tcap <= 0, 0, l.Q * (N(1) - l.tratio ** l.beta))),
    "runoff:hbv": ("Storage", lambda l: l.response_factor * l.Q ** (N(1) + l.alpha)),
    "outflow:snow_holding": ("Snowpack", lambda l: mx(0, l.Q - l.water_holding_capacity * l.S) / l.dt),
    "outflow:threshold": ("Storage", lambda l: mx(0, l.Q - nm("capacity")) / l.dt),
    "production:gr4j": ("Storage", None),
    "et:gr4j": ("Storage", None),
    "et:socont": ("Storage", lambda l: l.pet * l.ratio ** Fraction(1, 2)),
    "et:linear": ("Storage", lambda l: l.pet * mn(1, l.Q / l.cap)),
    "et:power_law": ("Storage", lambda l: l.pet * l.ratio ** l.exponent),
    "et:exponential": ("Storage", lambda l: l.pet * (N(1) - exp(-(l.alpha * l.ratio)))),
    "et:hbv": ("Storage", lambda l: sel(l.lp * l.cap <= 0, l.et_correction_factor * l.pet, l.et_correction_factor * l.pet * mn(1, l.Q / (l.lp * l.cap)))),
    "et:open_water": ("Storage", lambda l: mn(l.pet, l.Q / l.dt)),
    "melt:degree_day": ("Snowpack", lambda l: dd(l, l.degree_day_factor)),
    "melt:temperature_index": ("Snowpack", lambda l: dd(l, l.melt_factor + l.radiation_coefficient * l.rad)),
    "melt:cemaneige": ("Snowpack", cema),
    "sublimation:constant": ("Snowpack", lambda l: l.sublimation_rate),
    "sublimation:pet": ("Snowpack", lambda l: l.pet * l.sublimation_pet_factor),
    "transformation:snow_ice_constant": ("Snowpack", lambda l: l.snow_ice_transformation_rate),
    "transformation:snow_ice_swat": ("Snowpack", swat),
    "interception:gr4j": ("Storage", lambda l: mn(l.Q, l.pet)),
}
SNOW = {"melt", "sublimation", "transformation", "transport"}


def rate_of(v, i=0):
    def f(x):
        if x.k == "vec" and len(x.a) > i:
            return x.a[i]
        return mk("num", V.p_atom(V.atom(("unknown", x.id, i))))
    return V.apply(f, v)


def pos(n):
    return (N(n).v.a[0], ">")


def nonneg(n):
    return (N(n).v.a[0], ">=")


def facts_for(typ, l):
    """domain of the law: quantities that are physically non negative"""
    f = [pos(nm("time.timeStepInDays")), pos(nm("unit.area"))]
    return f


def judge_rate(ctx, pr, typ, v, law, l, f, rule="law", i=0, tag="", facts=()):
    where = ctx.at(f)
    code = rate_of(v, i)
    wet = [(((l.Q - 1e-6).v).a[0], ">")] + facts_for(typ, l) + list(facts)
    apply_judge(ctx, rule, "%s%s" % (typ, tag), where, code, law.v, facts=wet, what="process '%s'%s:" % (typ, tag))


def dry(ctx, pr, typ, v, l, f, i=0, facts=()):
    d = [((l.Q).v.a[0], "<=")] + facts_for(typ, l) + list(facts)
    apply_judge(ctx, "empty store", typ + ":empty", ctx.at(f), rate_of(v, i), num(0), facts=d, what="process '%s' on an empty store:" % typ)


def sig(ctx, cls):
    f = procs.method(ctx, cls, "GetRates") or procs.method(ctx, cls, "GetChangeRates")
    if f is None:
        raise Broken("no rate function for %s" % cls)
    return f


def build(ctx, reg, typ, brick, **kw):
    if typ not in reg.rows:
        ctx.bad("registry", "missing:" + typ, "core/src/processes/Process.cpp", "the process type '%s' is no longer registered" % typ)
        return None
    pr = procs.build(ctx, reg, typ, brick, **kw)
    if pr.obj is None or pr.cls is None:
        ctx.und("law", typ, "the creator of '%s' is not interpretable" % typ)
        return None
    return pr


def simple(ctx, reg, typ):
    brick, law = LAWS[typ]
    variants = [("", brick, None)]
    if typ in ("melt:degree_day", "melt:temperature_index"):
        variants.append((" on a glacier", "Glacier", "ice"))
    if brick == "Storage":
        variants.append((" on a land cover", "GenericLandCover", None))
    for tag, br, kind in variants:
        pr = build(ctx, reg, typ, br)
        if pr is None:
            continue
        procs.prepare(ctx, pr)
        if br == "GenericLandCover" and "LandCover::_areaFraction" in ctx.prog.field:
            # the fraction changes after the process was set up
            pr.sc.store(mk("loc", "f", pr.sc.brick, "LandCover::_areaFraction"), nm("fraction").v)
        v = procs.rates(pr)
        f = sig(ctx, pr.cls)
        l = Law(kind or ("snow" if typ.split(":")[0] in SNOW else "water"))
        facts = []
        if br == "GenericLandCover":
            l.__dict__["fraction"] = nm("fraction")
            facts.append(pos(nm("fraction")))
        if br == "Glacier":
            v = assume_flags(v, {"ice.noMeltWhenSnowCover": False})
        judge_rate(ctx, pr, typ, v, law(l), l, f, tag=tag, facts=facts + extra(typ, l))
        dry(ctx, pr, typ, v, l, f)


def extra(typ, l):
    """preconditions of the law"""
    if typ in ("et:socont", "et:linear", "et:power_law", "et:exponential"):
        return [pos(l.cap), nonneg(l.pet)]
    if typ in ("et:open_water", "interception:gr4j"):
        return [nonneg(l.pet)]
    return []


def assume_flags(v, flags):
    for name, val in flags.items():
        i = V._var_id.get(("b", "flag", name))
        if i is not None:
            v = V.restrict(v, i, val)
    return v


def gr4j(ctx, reg):
    X1 = nm("water.capacity")
    S0, P = nm("water.content"), nm("water.contentChangeStatic")
    pet = nm("PET")
    l = Law()
    for typ in ("production:gr4j", "et:gr4j"):
        pr = build(ctx, reg, typ, "Storage")
        if pr is None:
            continue
        procs.prepare(ctx, pr)
        v = procs.rates(pr)
        f = sig(ctx, pr.cls)
        inf = g_inf(S0, P, X1)
        if typ == "et:gr4j":
            law = g_eva(S0 + inf, pet, X1)
        else:
            law = production(S0, P, pet, X1)
        judge_rate(ctx, pr, typ, v, law, l, f, facts=[pos(X1), nonneg(S0), nonneg(P), nonneg(pet)])
        dry(ctx, pr, typ, v, l, f)


def production(S0, P, pet, X1):
    inf = g_inf(S0, P, X1)
    s1 = S0 + inf
    s2 = s1 - g_eva(s1, pet, X1)
    return (P - inf) + g_perc(s2, X1)


def aspect(ctx, reg):
    typ = "melt:degree_day_aspect"
    for cls_, fac in (("north", "degree_day_factor_n"), ("south", "degree_day_factor_s"), ("east", "degree_day_factor_ew"), ("west", "degree_day_factor_ew"),
                      ("N", "degree_day_factor_n"), ("S", "degree_day_factor_s"), ("E", "degree_day_factor_ew"), ("W", "degree_day_factor_ew")):
        pr = build(ctx, reg, typ, "Snowpack", names={"unit.aspect_class": V.string(cls_)})
        if pr is None:
            continue
        procs.prepare(ctx, pr)
        v = procs.rates(pr)
        l = Law("snow")
        f = sig(ctx, pr.cls)
        judge_rate(ctx, pr, typ, v, dd(l, nm(fac)), l, f, tag=" (aspect %s)" % cls_)
        dry(ctx, pr, typ, v, l, f)


def capillary(ctx, reg):
    typ = "capillary:hbv"
    l = Law()
    pr = build(ctx, reg, typ, "Storage")
    if pr is None:
        return
    sc = pr.sc
    procs.prepare(ctx, pr, target=None, outputs=2)
    add = procs.method(ctx, pr.cls, "AddTargetBrickWithWeights")
    f = sig(ctx, pr.cls)
    if add is None:
        ctx.und("law", ctx.at(f), "no weighted target linking")
        return
    for i in range(2):
        srcs = [sc.root("cover%d%s" % (i, c), "GenericLandCover") for c in ("a", "b")]
        sc.inline(add, pr.obj, [sc.root("target%d" % i, "Storage"), mk("vec", *srcs)])
    v = procs.rates(pr)
    for i in range(2):
        tq, tc = l.q("target%d.water" % i), nm("target%d.water.capacity" % i)
        w = nm("cover%da.areaFraction" % i) + nm("cover%db.areaFraction" % i)
        law = sel(tc <= 0, 0, nm("max_capillary_flux") * w * (N(1) - clamp(tq / tc, 0, 1)))
        judge_rate(ctx, pr, typ, v, law, l, f, i=i, tag=" (target %d of 2)" % i)
        dry(ctx, pr, typ, v, l, f, i=i)
    pr = build(ctx, reg, typ, "Storage")
    sc = pr.sc
    procs.prepare(ctx, pr, target=None, outputs=1)
    sc.inline(add, pr.obj, [sc.root("target", "Storage"), mk("vec")])
    v = procs.rates(pr)
    law = sel(l.tcap <= 0, 0, nm("max_capillary_flux") * (N(1) - l.tratio))
    judge_rate(ctx, pr, typ, v, law, l, f, tag=" (single target without weights)")


def refreeze(ctx, reg):
    typ = "refreeze:degree_day"
    m = build(ctx, reg, "melt:degree_day", "Snowpack")
    if m is None:
        return
    procs.prepare(ctx, m, flux="meltout")
    sc = m.sc
    pr = build(ctx, reg, typ, "Snowpack", sc=sc)
    if pr is None:
        return
    procs.prepare(ctx, pr)
    sc.names["brick.processes"] = mk("vec", m.obj, pr.obj)
    v = procs.rates(pr)
    l = Law("water")
    f = sig(ctx, pr.cls)
    law = sel(l.T < l.melting_temperature, l.refreezing_factor * l.degree_day_factor * (l.melting_temperature - l.T), 0)
    judge_rate(ctx, pr, typ, v, law, l, f)
    dry(ctx, pr, typ, v, l, f)


def rest(ctx, reg):
    typ = "outflow:rest"
    for solver in (True, False):
        m = build(ctx, reg, "outflow:linear", "Storage", names={"brick.needsSolver": V.boolean(solver)})
        if m is None:
            return
        procs.prepare(ctx, m, flux="sib")
        sc = m.sc
        pr = build(ctx, reg, typ, "Storage", sc=sc)
        if pr is None:
            return
        procs.prepare(ctx, pr)
        sc.names["brick.processes"] = mk("vec", m.obj, pr.obj)
        store = procs.method(ctx, m.cls, "StoreInOutgoingFlux")
        if store is not None:
            rl = mk("loc", "t", "siblingRate")
            sc.st.s[rl] = nm("siblingRate").v
            sc.locty[rl] = "double"
            sc.inline(store, m.obj, [mk("addr", rl), num(0)])
        v = procs.rates(pr)
        l = Law("water")
        f = sig(ctx, pr.cls)
        law = mx(0, l.Q - nm("siblingRate")) if solver else l.Q
        judge_rate(ctx, pr, typ, v, law, l, f, tag=" (%s)" % ("solver brick" if solver else "direct brick"))
        dry(ctx, pr, typ, v, l, f)


def lateral_parts(l):
    own = nm("brick.cover.areaFraction")
    return own


def lateral(ctx, reg):
    l = Law("snow")
    S = l.Q
    slope = nm("unit.slope[degrees]")
    ratio = N(4)       # water density / snow density
    for typ in ("transport:snow_slide", "transport:snow_redistribution_frey"):
        pr = build(ctx, reg, typ, "Snowpack", names={"fluxTarget": "Snowpack"})
        if pr is None:
            continue
        procs.prepare(ctx, pr, target=None, outputs=2)
        v = procs.rates(pr)
        f = sig(ctx, pr.cls)
        for i in range(2):
            to = "out%d.to" % i
            frac = nm(to + ".cover.areaFraction")
            tswe = nm(to + ".snow.content")
            if typ == "transport:snow_slide":
                thr = nm("coeff") * mx(slope, nm("min_slope")) ** nm("exp") * 1000
                thr = sel(slope > nm("max_slope"), nm("min_snow_holding_depth"), thr)
                thr = mx(thr, nm("min_snow_holding_depth"))
                thr = sel(nm("max_snow_depth") > 0, mn(thr, nm("max_snow_depth")), thr)
                ex = mn(mx(S * ratio - thr, 0) / ratio, 1000)
                full = both(nm("max_snow_depth") > 0, tswe > N(Fraction(3, 2)) * nm("max_snow_depth") / ratio)
            else:
                rho, rm = nm("snow_density"), nm("rho_max")
                hold = nm("snow_holding_capacity") * rho / 1000
                fr = sel(rho < rm, (rm - rho) / rm * exp(-(rho / rm)) * clamp(slope, 0, 90) / 90, 0)
                ex = mn(mx(S - hold, 0) * fr * nm("correction"), 1000)
                full = both(nm("max_snow_depth") > 0, tswe > N(Fraction(3, 2)) * nm("max_snow_depth") * rho / 1000)
            law = sel(full, 0, ex * nm("weight%d" % i) * frac)
            facts = [((frac - 1e-3).v.a[0], ">"), pos(nm("rho_max")), pos(nm("snow_density")), nonneg(nm("correction")), nonneg(nm("snow_holding_capacity")), nonneg(slope)]
            judge_rate(ctx, pr, typ, v, law, l, f, i=i, tag=" (receiver %d of 2)" % i, facts=facts)
            dry(ctx, pr, typ, v, l, f, i=i)


def memory(ctx, reg):
    """cold content carried over two steps; net demand published by the interception"""
    typ = "melt:cemaneige"
    pr = build(ctx, reg, typ, "Snowpack")
    if pr is not None:
        procs.prepare(ctx, pr)
        l = Law("snow")
        f = sig(ctx, pr.cls)
        procs.rates(pr)
        pr.sc.st.s[mk("loc", "forcingval", obj("forcing", "VariableType::Temperature"))] = nm("T2").v
        v = procs.rates(pr)
        c = l.cold_content_factor
        g1 = mn(0, (N(1) - c) * (l.T - l.melting_temperature))
        d = nm("T2") - l.melting_temperature
        g = mn(0, c * g1 + (N(1) - c) * d)
        ratio = sel(l.mean_annual_snow > 0, mn(1, l.Q / (N(0.9) * l.mean_annual_snow)), 1)
        law = sel(either(d <= 0, g < 0), 0, (N(0.9) * ratio + 0.1) * l.degree_day_factor * d)
        judge_rate(ctx, pr, typ, v, law, l, f, rule="memory", tag=" (second step)")
    typ = "interception:gr4j"
    pr = build(ctx, reg, typ, "Storage")
    if pr is not None:
        procs.prepare(ctx, pr)
        f = sig(ctx, pr.cls)
        procs.rates(pr)
        l = Law()
        v = pr.sc.st.s.get(mk("loc", "forcingval", obj("forcing", "VariableType::PET")))
        if v is None:
            ctx.und("memory", ctx.at(f), "no demand published")
        else:
            wet = [(((l.Q - 1e-6).v).a[0], ">")]
            apply_judge(ctx, "memory", typ + ":net demand", ctx.at(f), v, mx(0, l.pet - l.Q).v, facts=wet, what="net evaporative demand published by '%s':" % typ)


def sh1(t, x4):
    return N(0) if t <= 0 else N(1) if t >= x4 else (N(Fraction(t) / x4)) ** Fraction(5, 2)


def sh2(t, x4):
    if t <= 0:
        return N(0)
    if t >= 2 * x4:
        return N(1)
    if t < x4:
        return N(Fraction(1, 2)) * N(Fraction(t) / x4) ** Fraction(5, 2)
    return N(1) - N(Fraction(1, 2)) * N(2 - Fraction(t) / x4) ** Fraction(5, 2)


def tri(t, mb):
    if t <= 0:
        return Fraction(0)
    if t >= mb:
        return Fraction(1)
    r = Fraction(t) / mb
    return 2 * r * r if r <= Fraction(1, 2) else 1 - 2 * (1 - r) * (1 - r)


def ceil(x):
    return -((-x.numerator) // x.denominator)


def ordinates(fn, n, x):
    return [fn(j, x) - fn(j - 1, x) for j in range(1, n + 1)]


class Conv:
    """unit hydrograph store: content of each class at the start of the step"""

    def __init__(self, o):
        self.o, self.s = o, [N(0)] * len(o)

    def out(self, x):
        return (self.s[1] if len(self.s) > 1 else N(0)) + self.o[0] * x

    def step(self, x):
        n = len(self.s)
        self.s = [(self.s[j + 1] if j + 1 < n else N(0)) + self.o[j] * x for j in range(n)]


def expstore(R, X6):
    ar = clamp(R / X6, -33, 33)
    return sel(X6 <= 0, mx(0, R), sel(ar > 7, R + X6 / exp(ar), sel(ar < -7, X6 * exp(ar), X6 * log(exp(ar) + 1))))


def routing_gr(ctx, reg, typ, x4, steps, simple, fixed=()):
    """hydrograph stores over several steps, routing (and exponential) store, exchange"""
    step = [0]

    def call(sc, e, n, recv, args, tgt):
        if n == "WaterContainer::SumIncomingFluxes":
            return num(0) if impulse and step[0] else nm("in%d" % step[0]).v
        return None
    names = {"uh_base_time": num(x4)}
    if simple:
        fixed = ("exchange_factor", "exp_store_coeff")
    impulse = simple
    val = lambda n: N(0) if n in fixed else nm(n)
    for n in fixed:
        names[n] = num(0)
    pr = build(ctx, reg, typ, "Storage", names=names, hooks={"call": call})
    if pr is None:
        return
    procs.prepare(ctx, pr)
    f = sig(ctx, pr.cls)
    x4e = x4 if x4 > 0 else Fraction(1, 2)
    u1, u2 = Conv(ordinates(sh1, ceil(x4e), x4e)), Conv(ordinates(sh2, ceil(2 * x4e), x4e))
    gr6 = typ == "routing:gr6j"
    X2, X3, X5, X6 = val("exchange_factor"), val("routing_capacity"), val("exchange_threshold"), val("exp_store_coeff")
    r = rexp = N(0)
    l = Law()
    seven = Fraction(7, 2)
    for k in range(steps):
        step[0] = k
        x = N(0) if impulse and k else nm("in%d" % k)
        p1, p2 = x * Fraction(9, 10), x * Fraction(1, 10)
        o1, o2 = u1.out(p1), u2.out(p2)
        if gr6:
            F = sel(X3 > 0, X2 * (r / X3 - X5), 0)
            rp = mx(0, r + o1 * Fraction(6, 10) + F)
        else:
            rr = r / X3
            F = sel(X3 > 0, X2 * rr * rr * rr * sqrt(rr), 0)
            rp = mx(0, r + o1 + F)
        q4 = rp / X3
        rr4 = sel(X3 > 0, q4 * q4 * q4 * q4, 0)
        qr = rp * (N(1) - (N(1) + rr4) ** Fraction(-1, 4))
        qd = mx(0, o2 + F)
        law = qr + qd
        if gr6:
            re = rexp + o1 * Fraction(4, 10) + F
            qe = expstore(re, X6)
            law = mx(0, qr + qe + qd)
        drop(pr.sc, "water")
        v = procs.rates(pr)
        fs = [nonneg(nm("in%d" % j)) for j in range(k + 1)] + ([] if "routing_capacity" in fixed else [pos(X3)])
        judge_rate(ctx, pr, typ, v, law, l, f, tag=" (base time %s, step %d%s)" % (float(x4), k + 1, ", impulse without exchange" if simple else ", without " + " and ".join(fixed) if fixed else ""), facts=fs)
        if not gr6 and not simple:
            st = pr.sc.load(mk("loc", "f", pr.sc.root("water"), "WaterContainer::_contentChangeStatic"), "double") if "WaterContainer::_contentChangeStatic" in ctx.prog.field else None
            if st is not None:
                ex = nm("water.contentChangeStatic") + ((rp - (r + o1)) + (qd - o2)) * nm("time.timeStepInDays")
                ex = sel(l.Q > 0, ex, nm("water.contentChangeStatic"))
                apply_judge(ctx, "memory", typ + ":exchange", ctx.at(f), st, ex.v, facts=[((l.Q - 1e-6).v.a[0], ">")] + facts_for(typ, l) + fs, what="groundwater exchange of '%s' added to the store (step %d):" % (typ, k + 1))
        if k + 1 < steps:
            procs.call(pr, "Finalize")
            u1.step(p1)
            u2.step(p2)
            r = rp - qr
            if gr6:
                rexp = re - qe


def drop(sc, root):
    """forgets the changes made to a storage: its locations are symbolic again"""
    o = sc.root(root)
    for k in [k for k in sc.st.s if k.k == "loc" and k.a[0] == "f" and k.a[1] is o]:
        del sc.st.s[k]


def routing_hbv(ctx, reg, mb, steps):
    typ = "routing:hbv"
    step = [0]

    def call(sc, e, n, recv, args, tgt):
        if n == "WaterContainer::SumIncomingFluxes":
            return nm("in%d" % step[0]).v
        if n == "Flux::GetAmountPointer" or n == "Flux::GetAmount":
            return None
        return None
    pr = build(ctx, reg, typ, "Storage", names={"maxbas": num(mb)}, hooks={"call": call})
    if pr is None:
        return
    procs.prepare(ctx, pr)
    f = sig(ctx, pr.cls)
    me = mb if mb >= 1 else Fraction(1)
    o = ordinates(tri, ceil(me), me)
    s = [N(0)] * len(o)
    prev = N(0)
    l = Law()
    for k in range(steps):
        step[0] = k
        law = mx(0, s[0]) + o[0] * nm("in%d" % k) if len(s) else N(0)
        v = procs.rates(pr)
        judge_rate(ctx, pr, typ, v, law, l, f, tag=" (base time %s, step %d)" % (float(mb), k + 1), facts=[nonneg(nm("in%d" % k))])
        if k + 1 < steps:
            drop(pr.sc, "water")
            pr.sc.names["water.content"] = nm("content%d" % k).v
            pr.sc.names["out0.amount"] = nm("out%d" % k).v
            procs.call(pr, "Finalize")
            del pr.sc.names["water.content"]
            inflow = nm("content%d" % k) - prev + nm("out%d" % k)
            prev = nm("content%d" % k)
            carry = s[0] + o[0] * inflow - nm("out%d" % k)
            s = [s[j + 1] + o[j + 1] * inflow for j in range(len(s) - 1)] + [N(0)]
            s[0] = s[0] + carry


def frey_dynamic(ctx, reg):
    typ = "transport:snow_redistribution_frey_dynamic"
    pr = build(ctx, reg, typ, "Snowpack", names={"fluxTarget": "Snowpack"})
    if pr is None:
        return
    procs.prepare(ctx, pr, target=None, outputs=1)
    f = sig(ctx, pr.cls)
    l = Law("snow")
    S = l.Q
    slope = nm("unit.slope[degrees]")
    to = "out0.to"
    frac, tswe = nm(to + ".cover.areaFraction"), nm(to + ".snow.content")
    rm = nm("rho_max")

    def law(rho):
        hold = nm("snow_holding_capacity") * rho / 1000
        fr = sel(rho < rm, (rm - rho) / rm * exp(-(rho / rm)) * clamp(slope, 0, 90) / 90, 0)
        ex = mn(mx(S - hold, 0) * fr * nm("correction"), 1000)
        full = both(nm("max_snow_depth") > 0, tswe > N(Fraction(3, 2)) * nm("max_snow_depth") * rho / 1000)
        return sel(full, 0, ex * nm("weight0") * frac)
    facts = [((frac - 1e-3).v.a[0], ">"), pos(rm), nonneg(nm("correction")), nonneg(nm("snow_holding_capacity")), nonneg(slope)]
    rho = N(250)
    judge_rate(ctx, pr, typ, procs.rates(pr), law(rho), l, f, tag=" (initial density)", facts=facts)
    prev = N(0)
    t = nm("Temperature") / nm("rho_scale") + nm("t_scale")
    fresh = (nm("rho_fresh_max") - nm("rho_min")) * (t / sqrt(N(1) + t * t) + 1) / 2 + nm("rho_min")
    for k in range(3):
        swe = nm("swe%d" % k)
        pr.sc.names["snow.content"] = swe.v
        procs.call(pr, "Finalize")
        del pr.sc.names["snow.content"]
        sf = clamp(nm("rho_settling") * nm("time.timeStepInDays"), 0, 1)
        settled = rho + (rm - rho) * sf
        fr = mx(swe - prev, 0)
        ex = mx(mn(prev, swe), 0)
        rho = sel(swe <= 0, fresh, sel(fr > 0, (ex * settled + fr * fresh) / (ex + fr), settled))
        prev = swe
        v = pr.sc.inline(procs.method(ctx, pr.cls, "GetSnowDensity"), pr.obj, []) if procs.method(ctx, pr.cls, "GetSnowDensity") else None
        if v is None:
            ctx.und("memory", ctx.at(f), "no density accessor")
            return
        apply_judge(ctx, "memory", typ + ":density", ctx.at(f), v, sel(rho > 0, rho, 250).v, facts=[pos(nm("rho_min")), nonneg(nm("swe0")), nonneg(nm("swe1")), nonneg(nm("swe2")), ((nm("rho_fresh_max") - nm("rho_min")).v.a[0], ">"), pos(rm), nonneg(nm("rho_settling")), pos(nm("time.timeStepInDays"))], what="snow density after %d step(s):" % (k + 1))


def run(ctx):
    reg = Registry(ctx.prog)
    if not reg.rows:
        raise Broken("the process registry was not found")
    ctx.rule("law", "For every registered process kind the canonical value of the rate equals the documented law in every region with water in the store")
    ctx.rule("empty store", "An empty store yields no rate")
    ctx.rule("registry", "Every documented process kind is registered")
    for typ in LAWS:
        if LAWS[typ][1] is None:
            continue
        ctx.each("law", typ, simple, ctx, reg, typ)
    ctx.each("law", "aspect", aspect, ctx, reg)
    ctx.each("law", "gr4j", gr4j, ctx, reg)
    ctx.rule("memory", "State carried to the next step or to other processes follows the documented recursion")
    ctx.each("law", "capillary", capillary, ctx, reg)
    ctx.each("law", "refreeze", refreeze, ctx, reg)
    ctx.each("law", "rest", rest, ctx, reg)
    ctx.each("law", "lateral", lateral, ctx, reg)
    ctx.each("law", "memory", memory, ctx, reg)
    ctx.each("law", "frey_dynamic", frey_dynamic, ctx, reg)
    H = Fraction
    for typ in ("routing:gr4j", "routing:gr6j"):
        for x4 in (H(0), H(1, 2), H(1), H(17, 10), H(5, 2), H(3)):
            ctx.each("law", "routing", routing_gr, ctx, reg, typ, x4, 4, True)
    ctx.each("law", "routing", routing_gr, ctx, reg, "routing:gr4j", H(3, 2), 2, False)
    ctx.each("law", "routing", routing_gr, ctx, reg, "routing:gr6j", H(3, 2), 1, False)
    ctx.each("law", "routing", routing_gr, ctx, reg, "routing:gr6j", H(3, 2), 2, False, ("exp_store_coeff",))
    for mb in (H(1, 2), H(1), H(3, 2), H(2), H(5, 2), H(4), H(21, 5)):
        ctx.each("law", "routing", routing_hbv, ctx, reg, mb, ceil(mb) + 1 if mb > 1 else 3)
