"""C27: names in settings map to the same thing everywhere.

Every place that interprets a name is evaluated for every name that is known, spelled in other
ways, and made up:
  kind      the kind of brick, process, splitter, solver, forcing, content or time unit that a
            documented name stands for, synonyms included
  agree     the places that interpret the same sort of name do not give it different meanings
  printed   the names that an error lists as valid are those that are accepted
  refused   a name that nobody knows is refused, by an error or by the initialisation
  values    the names by which contents and fluxes are logged stand for that content or flux"""
from fractions import Fraction
from .. import vals as V
from ..vals import mk, num, NULL, TRUE, FALSE
from ..scene import Registry, nm, Name, apply_judge
from ..structures import Built, proc
from ..model import World
from ..ir import walk, fn_nodes, strip_ty, Broken
from ..bench import Missing
from ..vn import NullUse

ASSUMPTIONS = ["The documented names are written down in the check; names that were added since are only compared with each other.",
               "The case of letters matters except in the names of variables of data files."]
G = "GenericLandCover"
BRICKS = {"storage": "Storage", "generic_land_cover": G, "ground": G, "generic": G, "open": G, "glacier": "Glacier", "snowpack": "Snowpack", "interception_storage": "InterceptionStorage"}
SOLVERS = {"rk4": "SolverRK4", "runge_kutta": "SolverRK4", "euler_explicit": "SolverEulerExplicit", "heun_explicit": "SolverHeunExplicit",
           "analytic_linear": "SolverAnalyticLinear", "analytic": "SolverAnalyticLinear", "implicit_euler": "SolverImplicitEuler", "euler_implicit": "SolverImplicitEuler",
           "crank_nicolson": "SolverCrankNicolson", "trapezoidal": "SolverCrankNicolson", "exponential_euler": "SolverExponentialEuler"}
SPLITTERS = {"snow_rain:threshold": "SplitterSnowRainThreshold", "snow_rain:linear": "SplitterSnowRainLinear", "snow_rain:cemaneige": "SplitterSnowRainCemaNeige",
             "rain": "SplitterRain", "multi_fluxes": "SplitterMultiFluxes"}
VARIABLES = {"precipitation": "Precipitation", "p": "Precipitation", "temperature": "Temperature", "t": "Temperature", "temperature_min": "TemperatureMin", "t_min": "TemperatureMin",
             "temperature_max": "TemperatureMax", "t_max": "TemperatureMax", "solar_radiation": "Radiation", "r_solar": "Radiation", "r": "Radiation", "pet": "PET", "etp": "PET",
             "custom_1": "Custom1", "custom_2": "Custom2", "custom_3": "Custom3"}
FORCING = {n: VARIABLES[n] for n in ("precipitation", "temperature", "temperature_min", "temperature_max", "solar_radiation", "r_solar", "pet")}
CONTENTS = {"water": "Water", "snow": "Snow", "ice": "Ice"}
STEPS = {"day": 1, "hour": Fraction(1, 24), "minute": Fraction(1, 1440)}
ALIASES = {"outflow:percolation": "percolation:constant", "overflow": "outflow:overflow", "transform:snow_ice_constant": "transformation:snow_ice_constant",
           "transform:snow_ice_swat": "transformation:snow_ice_swat"}
MADE_UP = ("", "nothing", " ", "humidity", "x:y", ":")


def odd(names):
    """spellings that are not names"""
    out = list(MADE_UP)
    for n in sorted(names)[:6]:
        out += [n + "s", n[:-1], n + " ", "_" + n, n.capitalize() if n.capitalize() != n else n.upper()]
    return [x for x in dict.fromkeys(out) if x not in names]


def literals(prog, *funcs):
    """the texts written in these functions"""
    out = set()
    for f in funcs:
        for x in fn_nodes(f):
            if x.get("k") == "str" and isinstance(x.get("v"), str) and x["v"] and " " not in x["v"]:
                out.add(x["v"])
    return out


def free(ctx, name):
    f = next((f for f in ctx.prog.by_name.get(name, []) if f.get("body")), None)
    if f is None:
        raise Missing("function %s" % name)
    return f


def call(w, f, *args, recv=None):
    """the value, or None when the name is refused"""
    s = w.st.copy(), len(w.throws), len(w.frames)
    w.stop_null = True
    try:
        v = w.inline(f, recv, list(args))
    except NullUse:
        del w.frames[s[2]:]
        v = "null"
    bad = w.throws[s[1]:] or w.st.pc is not TRUE
    w.st = s[0]
    del w.throws[s[1]:]
    return None if bad else v


def table(ctx, what, names, f, meaning, unknown, wrap=lambda w, n: (V.string(n),), recv=None, ci=False):
    """what a function makes of the names"""
    w = World(ctx)
    at = ctx.at(f)
    got = {}
    for n in sorted(set(names) | literals(ctx.prog, f)):
        r = recv(w) if recv else None
        v = call(w, f, *wrap(w, n), recv=r)
        v = meaning(w, v) if v is not None else None
        if v == "?":
            ctx.und("kind", at, "%s \"%s\"" % (what, n))
            continue
        if v in unknown:
            v = None
        if n in names or v is not None:
            got[n] = v
        if n in names:
            ctx.check(v == names[n], "kind", "%s \"%s\"" % (what, n), at, "%s \"%s\" stands for %s and not for %s" % (what, n, v or "nothing", names[n]))
    accepted = {n for n in got if got[n] is not None}
    for n in odd(accepted):
        if ci and n.lower() in accepted:
            continue
        r = recv(w) if recv else None
        v = call(w, f, *wrap(w, n), recv=r)
        v = meaning(w, v) if v is not None else None
        if v == "?":
            ctx.und("refused", at, "%s \"%s\"" % (what, n))
        else:
            ctx.check(v in unknown or v is None, "refused", "%s \"%s\"" % (what, n), at, "%s \"%s\" is taken for %s" % (what, n, v))
    return accepted


def enum(w, v):
    return v.a[0].rsplit("::", 1)[-1] if v != "null" and v.k == "enum" else "?"


def listed(ctx, what, name, accepted):
    """the function that lists the valid names"""
    fs = [f for f in ctx.prog.by_name.get(name, []) if f.get("body")]
    if not fs:
        return
    w = World(ctx)
    v = call(w, fs[0])
    at = ctx.at(fs[0])
    names = None
    if v is not None and v != "null" and v.k == "str":
        t = v.a[0]
        names = {x.strip() for x in t[t.index(":") + 1:].split(",")} if ":" in t else None
    elif v is not None and v != "null" and v.k == "vec" and all(x.k == "str" for x in v.a):
        names = {x.a[0] for x in v.a}
    if names is None:
        ctx.und("printed", at, "%s: what it lists cannot be told" % name)
        return
    for n in sorted(names | accepted):
        ctx.check(n in names and n in accepted, "printed", "%s \"%s\" in %s" % (what, n, name), at,
                  "%s: \"%s\" is %s" % (what, n, "accepted, but not listed as valid" if n in accepted else "listed as valid, but refused"))


def types(ctx):
    acc = table(ctx, "brick type", {n: {"GenericLandCover": G}.get(c, c) for n, c in BRICKS.items()}, free(ctx, "BrickTypeFromString"), enum, ("Unknown",))
    listed(ctx, "brick type", "GetValidBrickTypes", acc)
    listed(ctx, "brick type", "GetBrickTypeSuggestions", acc)
    acc = table(ctx, "content", CONTENTS, free(ctx, "ContentTypeFromString"), enum, ("Unknown",))
    listed(ctx, "content", "GetValidContentTypes", acc)
    listed(ctx, "content", "GetContentTypeSuggestions", acc)
    f = free(ctx, "ContentTypeToString")
    w = World(ctx)
    for n, c in CONTENTS.items():
        v = call(w, f, mk("enum", "ContentType::" + c))
        ctx.check(None if v in (None, "null") or v.k != "str" else v.a[0] == n, "agree", "name of ContentType::" + c, ctx.at(f), "ContentType::%s is printed as %s" % (c, V.show(v) if v not in (None, "null") else v))


def variables(ctx):
    f = free(ctx, "TimeSeries::MatchVariableType")
    table(ctx, "variable", VARIABLES, f, enum, ("Unknown",), ci=True)


def solvers(ctx):
    f = free(ctx, "Solver::Factory")

    def wrap(w, n):
        o = w.new("SolverSettings")
        w.st.s[mk("loc", "f", o, "SolverSettings::name")] = V.string(n)
        return (o,)
    acc = table(ctx, "solver", SOLVERS, f, lambda w, v: cls(w, v), ("nothing",), wrap)
    listed(ctx, "solver", "GetValidSolverNames", acc)


def cls(w, v):
    if v == "null" or v.k == "null":
        return "nothing"
    return w.exact.get(v, "?")


def base(w, splitter=None):
    if splitter == "rain":
        w.s("GeneratePrecipitationSplitters", False)
    else:
        w.s("GeneratePrecipitationSplitters", True, *([splitter] if splitter else []))
    w.s("AddLandCoverBrick", "open", "generic_land_cover")
    if splitter != "rain":
        w.s("GenerateSnowpacks", "melt:degree_day")
    w.s("SelectHydroUnitBrick", "open")
    proc(w, "runoff", "outflow:linear", "a")
    w.s("AddHydroUnitBrick", "a", "storage")
    proc(w, "outflow", "outflow:linear", "outlet")
    w.s("AddLoggingToItem", "outlet")


UNIT = {"id": 4, "area": 100.0, "covers": (("open", 1.0),), "props": (("elevation", 1000.0, "m"), ("slope", 40.0, "degrees")), "sprops": (("aspect_class", "N"),)}


def build(ctx, tweak, unit="day", solver="heun_explicit", covers=()):
    """(model, ok, refused): whether a structure is accepted"""
    V.reset_budget()
    V.NUMERIC[0] = True
    box = []

    def t(w):
        box.append(w)
        w.stop_null = True
        tweak(w)
    try:
        b = Built(ctx, "blank", solver=solver, units=[dict(UNIT, covers=(("open", 1 - 0.25 * len(covers)),) + tuple((c, 0.25) for c in covers))], log_all=False, tweak=t, unit=unit)
        b.w.named_finite = True
        r = b.initialize()
    except NullUse:
        return None, False, "null"
    ok = b.clean and b.w.isok(r) is TRUE
    return b, ok, b.w.isok(r) is FALSE or bool(b.w.thrown)


def place(ctx, what, n, tweak, want, unit="day", solver="heun_explicit", covers=()):
    """a name in a whole structure; want: None for refused, or a test of the model built"""
    b, ok, refused = build(ctx, tweak, unit, solver, covers)
    at = ctx.at(free(ctx, "ModelHydro::Initialize"))
    key = "%s \"%s\"" % (what, n)
    if refused == "null":
        ctx.bad("refused" if want is None else "kind", key, at, "%s: building the model uses a null pointer" % key)
    elif want is None:
        ctx.check(True if refused and not ok else False if ok else None, "refused", key, at, "%s is accepted" % key)
    elif not ok:
        ctx.check(False if refused else None, "kind", key, at, "%s is refused" % key)
    else:
        got = want(b)
        ctx.check(None if got is None else got == "", "kind", key, at, "%s gives %s" % (key, got))


def brick(ctx, n, cover):
    def tweak(w):
        base(w)
        if cover:
            w.s("AddLandCoverBrick", "other", n)
        else:
            w.s("AddHydroUnitBrick", "other", n)
        if n not in BRICKS or BRICKS[n] in ("Storage", G, "InterceptionStorage"):
            proc(w, "outflow", "outflow:linear", "outlet")
        elif BRICKS[n] == "Snowpack":
            proc(w, "melt", "melt:degree_day", "a")
        else:
            w.s("AddBrickParameter", "infinite_storage", 1.0)
            proc(w, "melt", "melt:degree_day", "a", True)

    def want(b):
        for u in b.units():
            for x in b.bricks(u):
                if b.nm(x) == "other":
                    c = b.w.exact[x]
                    return "" if c == BRICKS[n] else "a " + c
        return None
    place(ctx, "land cover type" if cover else "brick type", n, tweak, want if n in BRICKS else None, covers=("other",) if cover else ())


def splitter(ctx, n):
    def tweak(w):
        base(w)
        w.s("AddHydroUnitSplitter", "other", n)
        if n.startswith("snow_rain") or n == "rain":
            w.s("AddSplitterForcing", "precipitation")
            if n != "rain":
                for x in ("temperature", "temperature_min", "temperature_max"):
                    w.s("AddSplitterForcing", x) if x == "temperature" or n.endswith("cemaneige") else None
                for p in ("threshold", "transition_start", "transition_end"):
                    w.s("AddSplitterParameter", p, 1.0)
            w.s("AddSplitterParameter", "rain_correction_factor", 1.0)
            w.s("AddSplitterParameter", "snow_correction_factor", 1.0)
        w.s("AddSplitterOutput", "a")
        if n.startswith("snow_rain"):
            w.s("AddSplitterOutput", "open_snowpack", mk("enum", "ContentType::Snow"))

    def want(b):
        for u in b.units():
            for x in b.splitters(u):
                if b.nm(x) == "other":
                    c = b.w.exact[x]
                    return "" if c == SPLITTERS[n] else "a " + c
        return None
    place(ctx, "splitter type", n, tweak, want if n in SPLITTERS else None)


def process(ctx, n):
    def tweak(w):
        base(w)
        w.s("SelectHydroUnitBrick", "a")
        proc(w, "other", n, "outlet")
    place(ctx, "process type", n, tweak, None)


def alias(ctx, n, reg):
    """a synonym makes the process of the name it stands for"""
    made = []
    for x in (n, ALIASES.get(n) or reg.alias[n]):
        def tweak(w):
            base(w)
            if "snow_ice" in x:
                w.s("AddLandCoverBrick", "glacier", "glacier")
                w.s("AddBrickParameter", "infinite_storage", 0.0)
                proc(w, "melt", "melt:degree_day", "a", True)
                w.s("SelectHydroUnitBrick", "open_snowpack")
                proc(w, "other", x, "glacier:ice")
            else:
                w.s("SelectHydroUnitBrick", "a")
                w.s("AddBrickParameter", "capacity", 100.0)
                proc(w, "other", x, "outlet")
        b, ok, refused = build(ctx, tweak, covers=("glacier",) if "snow_ice" in x else ())
        got = None
        if b is not None:
            for i, br, p in b.everything():
                if b.nm(p) == "other":
                    got = b.w.exact[p]
        made.append(got if ok else "refused" if refused else None)
    at = ctx.at(reg.f)
    ctx.check(None if None in made else made[0] == made[1] and made[0] != "refused", "kind", "process type \"%s\"" % n, at, "process type \"%s\" is %s, and \"%s\" %s" % (n, made[0], ALIASES.get(n) or reg.alias[n], made[1]))


def content(ctx, n):
    """the store of a target"""
    def tweak(w):
        base(w)
        w.s("AddLandCoverBrick", "glacier", "glacier")
        w.s("AddBrickParameter", "infinite_storage", 0.0)
        proc(w, "melt", "melt:degree_day", "a", True)
        w.s("SelectHydroUnitBrick", "open_snowpack")
        proc(w, "other", "transformation:snow_ice_constant", "glacier:" + n)
    place(ctx, "target content", n, tweak, None, covers=("glacier",))


def target(ctx, n):
    def tweak(w):
        base(w)
        w.s("SelectHydroUnitBrick", "a")
        proc(w, "other", "outflow:linear", n)
    place(ctx, "target", n, tweak, None)


def unit(ctx, n):
    def want(b):
        v = b.w.deref(b.w.m(b.timer, "GetTimeStepPointer"))
        v = b.w.load(v, "double") if v.k == "loc" else v
        if v.k != "num" or not V.p_isconst(v.a[0]):
            return None
        d = V.p_constval(v.a[0])
        return "" if abs(d - STEPS[n]) < Fraction(1, 10 ** 9) else "steps of %s days" % d
    place(ctx, "time step unit", n, base, want if n in STEPS else None, unit=n)


def solver(ctx, n):
    place(ctx, "solver", n, base, None, solver=n)


def forcing(ctx):
    """the names of forcings, for bricks, processes and splitters"""
    for meth, sel in (("AddBrickForcing", "brick"), ("AddProcessForcing", "process"), ("AddSplitterForcing", "splitter")):
        f = free(ctx, "SettingsModel::" + meth)
        for n in sorted(set(FORCING) | literals(ctx.prog, f)) + odd(FORCING):
            w = World(ctx)
            base(w)
            w.s("SelectHydroUnitBrick", "a")
            if sel == "process":
                w.s("SelectProcess", "outflow")
            if sel == "splitter":
                w.s("SelectHydroUnitSplitter", "snow_rain_transition")
            before = asked(w)
            k = len(w.throws)
            w.s(meth, n)
            key = "%s(\"%s\")" % (meth, n)
            if w.throws[k:]:
                ctx.check(True if n not in FORCING or (meth, n) in LACKING else False, "kind" if n in FORCING else "refused", key, ctx.at(f), "%s is refused" % key)
                continue
            now = asked(w)
            new = [x for x in now if now[x] != before.get(x, 0)]
            if n in FORCING:
                ctx.check(new == [FORCING[n]], "kind", key, ctx.at(f), "%s adds %s" % (key, ", ".join(new) or "nothing"))
            elif n in VARIABLES:
                ctx.check(new == [VARIABLES[n]], "agree", key, ctx.at(f), "%s adds %s, and %s in data files" % (key, ", ".join(new) or "nothing", VARIABLES[n]))
            else:
                ctx.check(None if new and n in literals(ctx.prog, f) else False, "refused", key, ctx.at(f), "%s is accepted and adds %s" % (key, ", ".join(new) or "nothing"))


# not every component takes every forcing
LACKING = {("AddBrickForcing", x) for x in ("pet", "temperature_min", "temperature_max")} | {("AddSplitterForcing", "pet")}


def asked(w):
    out = {}
    for l, v in w.st.s.items():
        if l.a[0] == "f" and v.k == "vec":
            for x in v.a:
                if x.k == "enum" and "VariableType::" in x.a[0]:
                    t = x.a[0].rsplit("::", 1)[-1]
                    out[t] = out.get(t, 0) + 1
    return out


# -------------------------------------------------------------------- values

STORES = {"water": "Water", "water_content": "Water", "snow": "Snow", "snow_content": "Snow", "ice": "Ice", "ice_content": "Ice"}
HOLDS = {"Snowpack": ("Water", "Snow"), "Glacier": ("Water", "Ice")}


def pointed(w, v):
    if v.k == "addr":
        return w.load(v.a[0], "double")
    return None


def values(ctx, sp=None):
    """names of contents and fluxes that can be recorded"""
    def tweak(w):
        base(w, sp)
        w.s("AddLandCoverBrick", "glacier", "glacier")
        w.s("AddBrickParameter", "infinite_storage", 0.0)
        proc(w, "melt", "melt:degree_day", "a", True)
        w.s("AddHydroUnitBrick", "canopy", "interception_storage")
        proc(w, "outflow", "outflow:linear", "outlet")
    b, ok, refused = build(ctx, tweak, covers=("glacier",))
    if not ok:
        ctx.und("values", None, "the structure of the check is refused: %s" % (b and (b.w.thrown[-2:], b.w.nulls[-2:]),))
        return
    w = b.w
    s0 = b.snap()
    for u in b.units():
        for br in b.bricks(u):
            c = w.exact[br]
            holds = HOLDS.get(c, ("Water",))
            b.back(s0)
            given = {}
            for h in holds:
                given[h] = nm("%s of %s" % (h, b.nm(br)))
                w.m(br, "UpdateContent", given[h].v, mk("enum", "ContentType::" + h))
            for n, h in STORES.items():
                at = w.at(br, "GetValuePointer")
                key = "\"%s\" of a %s" % (n, c)
                v = w.m(br, "GetBaseValuePointer", V.string(n))
                if v.k == "null":
                    v = w.m(br, "GetValuePointer", V.string(n))
                x = pointed(w, v)
                if h not in holds:
                    ctx.check(v.k == "null" if x is None or True else None, "values", key, at, "%s gives something" % key)
                elif x is None:
                    ctx.check(False if v.k == "null" else None, "values", key, at, "%s is not known" % key)
                else:
                    apply_judge(ctx, "values", key, at, x, given[h].v, w.facts, "%s:" % key)
            for n in odd(STORES):
                for g in ("GetBaseValuePointer", "GetValuePointer"):
                    k = len(w.throws)
                    v = w.m(br, g, V.string(n))
                    ctx.check(True if v.k == "null" or w.throws[k:] else False if v.k == "addr" else None, "refused", "%s(\"%s\") of a %s" % (g, n, c), w.at(br, g), "\"%s\" gives a value of a %s" % (n, c))
    b.back(s0)
    kinds = {}
    for u in b.units():
        for o in [p for br in b.bricks(u) for p in b.processes(br)] + b.splitters(u):
            kinds.setdefault(w.exact[o], o)
    for c, o in sorted(kinds.items()):
        b.back(s0)
        outs = w.st.s.get(mk("loc", "f", o, next((f["q"] for f in b.fields(o) if f["q"].endswith("::_outputs")), "")))
        if outs is None or outs.k != "vec" or not outs.a:
            continue
        amounts = []
        for i, x in enumerate(outs.a):
            a = nm("amount %d of %s" % (i, c))
            amounts.append(a)
            p = w.m(x, "GetAmountPointer")
            if p.k == "addr":
                w.st.s[p.a[0]] = a.v
        names = (("rain", 0), ("snow", 1)) if "SnowRain" in c else (("rain", 0),) if c == "SplitterRain" else (("output", 0),) if not c.startswith("Splitter") else ()
        for n, i in names:
            at = w.at(o, "GetValuePointer")
            x = pointed(w, w.m(o, "GetValuePointer", V.string(n)))
            key = "\"%s\" of %s" % (n, c)
            if x is None:
                ctx.und("values", at, key)
            else:
                apply_judge(ctx, "values", key, at, x, amounts[i].v, w.facts, "%s:" % key)
        for n in ("", "nothing", "outputs", "rainfall", "water_content"):
            b.back(s0)
            k = len(w.throws)
            v = w.m(o, "GetValuePointer", V.string(n))
            ctx.check(True if v.k == "null" or w.throws[k:] else False if v.k == "addr" else None, "refused", "\"%s\" of %s" % (n, c), w.at(o, "GetValuePointer"), "\"%s\" gives a value of %s" % (n, c))


def logs(ctx, n):
    def tweak(w):
        base(w)
        w.s("SelectHydroUnitBrick", "a")
        w.s("AddBrickLogging", n)
    place(ctx, "item to record", n, tweak, None)


def run(ctx):
    reg = Registry(ctx.prog)
    ctx.rule("kind", "a documented name stands for its kind")
    ctx.rule("agree", "a name means the same wherever it is interpreted")
    ctx.rule("printed", "the names listed as valid are those accepted")
    ctx.rule("refused", "unknown names are refused")
    ctx.rule("values", "the names of what is recorded stand for it")
    for f in (types, variables, solvers, forcing, values):
        ctx.each("kind", f.__name__, f, ctx)
    for n in SPLITTERS:
        if n != "multi_fluxes":
            ctx.each("values", n, values, ctx, n)
    for n in list(BRICKS) + odd(BRICKS):
        for cover in (False, True):
            if n not in BRICKS or cover == (BRICKS[n] in (G, "Glacier")):
                ctx.each("kind", "brick " + n, brick, ctx, n, cover)
    for n in list(SPLITTERS) + odd(SPLITTERS):
        ctx.each("kind", "splitter " + n, splitter, ctx, n)
    for n in odd(set(reg.rows) | set(reg.alias)):
        ctx.each("refused", "process " + n, process, ctx, n)
    for n in sorted(set(ALIASES) | set(reg.alias)):
        ctx.each("kind", "alias " + n, alias, ctx, n, reg)
    for n in odd(CONTENTS):
        ctx.each("refused", "content " + n, content, ctx, n)
    for n in odd({"outlet", "open", "a"}):
        if n.strip() and ":" not in n:
            ctx.each("refused", "target " + n, target, ctx, n)
    for n in list(STEPS) + odd(STEPS):
        ctx.each("kind", "unit " + n, unit, ctx, n)
    for n in odd(SOLVERS):
        ctx.each("refused", "solver " + n, solver, ctx, n)
    for n in odd(STORES):
        ctx.each("refused", "record " + n, logs, ctx, n)
