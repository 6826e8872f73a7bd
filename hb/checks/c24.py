"""C24: precipitation splitting conserves precipitation.

Each registered splitter kind is built through its registry entry; the value stored in
each output flux by Compute() is computed by gated value numbering of the current source.
Rules: with unit correction factors the outputs sum to the precipitation in every region of
the temperatures; each output is not negative; the outputs follow the documented law."""
from .. import vals as V, splits
from ..vals import mk, obj, num, nat
from ..scene import *
from ..ir import Broken

ASSUMPTIONS = ["Correction factors multiply the rain and the snow after the split (documented); the sum rule uses unit factors.",
               "The cases maximum < minimum temperature and end <= start of the transition are compared on the regions the code distinguishes."]

P, T, TN, TX = nm("Precipitation"), nm("Temperature"), nm("TemperatureMin"), nm("TemperatureMax")
FORC = ["VariableType::Precipitation", "VariableType::Temperature", "VariableType::TemperatureMin", "VariableType::TemperatureMax"]


def law_rain(f):
    return [P * f("rain_correction_factor")]


def snow_to(frac, f):
    return [P * (N(1) - frac) * f("rain_correction_factor"), P * frac * f("snow_correction_factor")]


def law_threshold(f):
    return snow_to(sel(T <= nm("threshold"), 1, 0), f)


def law_linear(f):
    s, e = nm("transition_start"), nm("transition_end")
    return snow_to(sel(T <= s, 1, sel(T >= e, 0, N(1) - (T - s) / (e - s))), f)


def law_cema(f):
    z = nm("unit.elevation[m]")
    tx = sel(TX < TN, TN, TX)
    hi = sel(T <= -1, 1, sel(T >= 3, 0, (N(3) - T) / 4))
    lo = sel(tx <= 0, 1, sel(TN >= 0, 0, N(1) - tx / (tx - TN)))
    return snow_to(sel(z >= 1500, hi, lo), f)


LAWS = {"rain": law_rain, "snow_rain:threshold": law_threshold, "snow_rain:linear": law_linear, "snow_rain:cemaneige": law_cema}


def attach(sp):
    for v in FORC:
        n0 = len(sp.sc.throws)
        pc = sp.sc.st.pc
        st = sp.sc.st.copy()
        splits.call_m(sp, "AttachForcing", obj("forcing", v))
        if sp.sc.st.pc is V.FALSE or len(sp.sc.throws) > n0 and sp.sc.st.pc is not pc:
            sp.sc.st = st       # this kind of forcing is refused


NEEDED = {"snow_rain:threshold": ["threshold"], "snow_rain:linear": ["transition_start", "transition_end"]}
FACTORS = ["rain_correction_factor", "snow_correction_factor"]


def compute(ctx, typ, row, declared, n_out):
    sp = splits.build(ctx, typ, row, NEEDED.get(typ, []) + (FACTORS if declared else []))
    if sp.cls is None:
        return None
    attach(sp)
    splits.call_m(sp, "SetHydroUnitProperties", sp.sc.unit)
    sp.out = []
    for i in range(n_out):
        fl = sp.sc.root("out%d" % i, "FluxToBrick")
        splits.call_m(sp, "AttachFluxOut", fl)
        sp.out.append(fl)
    splits.call_m(sp, "Compute")
    sp.val = [splits.amount(sp, x) for x in sp.out]
    return sp


def one(ctx, typ, row):
    n_out = 1 if typ == "rain" else 2
    sp = compute(ctx, typ, row, True, n_out)
    where0 = ctx.at(row[2], row[1])
    if sp is None:
        ctx.und("law", where0, "splitter kind %s is not built by a single class" % typ)
        return
    f = splits.method(ctx, sp.cls, "Compute")
    where = ctx.at(f)
    law = LAWS.get(typ)
    fac = lambda k: nm(k)
    facts = [T > -200, T < 200]
    if law:
        for i, (c, s) in enumerate(zip(sp.val, law(fac))):
            apply_judge(ctx, "law", "%s:%d" % (typ, i), where, c, s.v, [], "output %d of %s" % (i, typ))
    # defaults: no correction factor declared
    sp = compute(ctx, typ, row, False, n_out)
    tot = num(0)
    for c in sp.val:
        tot = V.add(tot, c)
    apply_judge(ctx, "sum", typ + ":sum", where, tot, P.v, [], "sum of the outputs of %s without correction" % typ)
    pos = [P >= 0, nm("transition_start") < nm("transition_end")]
    for i, c in enumerate(sp.val):
        if law:
            l = law(lambda k: N(1))[i].v
            r = judge(c, l)
            if r[0] == "held":
                ctx.ok("not negative", where, "output %d of %s follows the law, whose fraction is within 0 and 1" % (i, typ))
                continue
        apply_judge(ctx, "not negative", "%s:neg%d" % (typ, i), where, V.v_min(c, num(0)), num(0), pos, "output %d of %s" % (i, typ))


def multi(ctx, typ, row):
    for n, ins in ((1, 1), (2, 1), (3, 1), (5, 1), (2, 2), (1, 3)):
        sp = splits.build(ctx, typ, row)
        if sp.cls is None:
            ctx.und("distribution", ctx.at(row[2], row[1]), "kind %s" % typ)
            return
        want = N(0)
        for k in range(ins):
            splits.call_m(sp, "AttachFluxIn", sp.sc.root("in%d" % k, "FluxSimple"))
            want = want + nm("in%d.amount" % k)
        outs = [sp.sc.root("out%d" % i, "FluxToBrick") for i in range(n)]
        for o in outs:
            splits.call_m(sp, "AttachFluxOut", o)
        splits.call_m(sp, "Compute")
        f = splits.method(ctx, sp.cls, "Compute")
        for i, o in enumerate(outs):
            apply_judge(ctx, "distribution", "%s:%d/%d%s" % (typ, i, n, "" if ins == 1 else " from %d" % ins), ctx.at(f), splits.amount(sp, o), want.v, [],
                        "output %d of %d of %s, with %d inputs" % (i, n, typ, ins))


def value_pointers(ctx, typ, row):
    """the named outputs that are recorded point at the flux of that role"""
    if typ not in LAWS:
        return
    n_out = 1 if typ == "rain" else 2
    sp = compute(ctx, typ, row, False, n_out)
    f = splits.method(ctx, sp.cls, "GetValuePointer")
    for i, name in enumerate(["rain", "snow"][:n_out]):
        r = splits.call_m(sp, "GetValuePointer", V.string(name))
        want = mk("addr", mk("loc", "f", sp.out[i], "Flux::_amount"))
        if r is want:
            ctx.ok("named outputs", ctx.at(f), name)
        elif r is not None and r.k in ("addr", "null"):
            ctx.bad("named outputs", "%s:%s" % (typ, name), ctx.at(f), "the output '%s' of %s designates %s instead of the flux %d" % (name, typ, V.show(r), i))
        else:
            ctx.und("named outputs", ctx.at(f), V.show(r) if r is not None else "")


def run(ctx):
    ctx.rule("law", "rain and snow given by each splitter kind equal the documented split of the precipitation in every temperature region")
    ctx.rule("sum", "with no correction factors the outputs of a precipitation splitter sum to the precipitation received")
    ctx.rule("not negative", "no output is negative for non negative precipitation")
    ctx.rule("distribution", "the sum of the unit-wide fluxes received is handed to each of the outputs")
    ctx.rule("named outputs", "the names 'rain' and 'snow' designate the rain and the snow output")
    rs = splits.rows(ctx)
    for typ, row in sorted(rs.items()):
        w = ctx.at(row[2], row[1])
        if typ == "multi_fluxes":
            ctx.each("distribution", w, multi, ctx, typ, row)
        else:
            ctx.each("law", w, one, ctx, typ, row)
            ctx.each("named outputs", w, value_pointers, ctx, typ, row)
