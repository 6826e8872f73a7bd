"""C23: missing forcing or parameters are reported before use.

Every process kind of the registry and every splitter kind is placed in a structure that the
builder accepts, next to the structures of the package. One input at a time is then taken away:
  attached    a forcing, target brick or the outputs of one component are removed: the component
              says that it is not valid, or its computation never touches what is missing
  position    the model as a whole is not valid either, wherever the component sits
  settings    a forcing or a parameter is removed from the settings before the model is built:
              the initialisation is refused, or nothing that is computed touches what is missing
  no data     a run for which a forcing has no time series does not read it as if it had one
  named       names that are not supported are refused with an error that contains the name"""
from .. import vals as V
from fractions import Fraction
from ..vals import mk, num, NULL, TRUE, FALSE
from ..scene import Registry
from ..structures import Built, proc, glacier_stores
from ..ir import strip_ty, walk, Broken, fn_nodes
from ..bench import Missing
from ..vn import NullUse

ASSUMPTIONS = ["One input is missing at a time. The computation is followed with given numbers for contents, parameters and weather.",
               "Process kinds that no structure of the check takes are not looked at."]
G = "generic_land_cover"
CT = ("ContentType::Water", "ContentType::Snow", "ContentType::Ice")
UNIT = {"id": 4, "area": 100.0, "covers": (("open", 0.5), ("glacier", 0.5)),
        "props": (("elevation", 1000.0, "m"), ("slope", 40.0, "degrees"), ("latitude", 46.0, "degrees")), "sprops": (("aspect_class", "N"),)}
UNIT2 = dict(UNIT, id=7, area=300.0)
HOSTS = (("a", "b", False), ("a", "", False), ("open", "b", False), ("open", "", False), ("open_snowpack", "", False), ("open_snowpack", "glacier:ice", False),
         ("glacier_snowpack", "glacier:ice", False), ("open_snowpack", "lateral:snow", False), ("open_snowpack", "b", True), ("glacier", "b", True), ("a", "outlet", False), ("a", "a", False), ("open", "b", True))
SPLITTERS = ("snow_rain:linear", "snow_rain:threshold", "snow_rain:cemaneige", "rain")
WEATHER = {"Temperature": 1, "Precipitation": 8, "PET": 2, "TemperatureMin": -1, "TemperatureMax": 3, "Radiation": 100}


def base(kind, host, target, inst, splitter="snow_rain:linear"):
    def tweak(w):
        if splitter == "rain":
            w.s("GeneratePrecipitationSplitters", False)
        else:
            w.s("GeneratePrecipitationSplitters", True, splitter)
        w.s("AddLandCoverBrick", "open", G)
        w.s("AddLandCoverBrick", "glacier", "glacier")
        melt = kind if kind and kind.startswith("melt:") and host.endswith("_snowpack") else "melt:degree_day"
        if splitter != "rain":
            if kind in ("outflow:snow_holding", "refreeze:degree_day"):
                w.s("GenerateSnowpacksWithWaterRetention", melt, "outflow:snow_holding", True)
                if kind.startswith("refreeze"):
                    w.s("AddSnowpackRefreezing", kind)
            else:
                w.s("GenerateSnowpacks", melt)
            if kind and kind.startswith("transformation:"):
                w.s("AddSnowIceTransformation", kind)
            elif kind and kind.startswith("transport:"):
                w.s("AddSnowRedistribution", kind)
            elif kind and kind.startswith("sublimation:"):
                w.s("AddSnowpackSublimation", kind)
        generated = kind and kind.split(":")[0] in ("transformation", "transport", "sublimation", "refreeze") or kind == "outflow:snow_holding" or melt == kind
        mine = kind and not generated

        def there(name):
            if mine and host == name:
                proc(w, "special", kind, target, inst)
                return True
        w.s("SelectHydroUnitBrick", "open")
        there("open")
        if kind != "outflow:direct" or host != "open":
            proc(w, "runoff", "outflow:rest", "b")
        w.s("SelectHydroUnitBrick", "glacier")
        w.s("AddBrickParameter", "no_melt_when_snow_cover", 0.0)
        w.s("AddBrickParameter", "infinite_storage", 0.0)
        proc(w, "outflow_rain_snowmelt", "outflow:direct", "glacier_area_rain_snowmelt_storage", True)
        if not there("glacier"):
            proc(w, "melt", "melt:degree_day", "glacier_area_icemelt_storage", True)
        glacier_stores(w)
        w.s("AddHydroUnitBrick", "a", "storage")
        if kind and "gr4j" in kind:
            w.s("SetCurrentBrickComputedDirectly")
        w.s("AddBrickParameter", "capacity", 200.0)
        there("a")
        if kind != "outflow:direct" or host != "a":
            proc(w, "outflow", "outflow:linear", "outlet")
        w.s("AddHydroUnitBrick", "b", "storage")
        w.s("AddBrickParameter", "capacity", 200.0)
        proc(w, "outflow", "outflow:linear", "outlet")
        w.s("AddLoggingToItem", "outlet")
        if mine and host.endswith("_snowpack"):
            w.s("SelectHydroUnitBrick", host)
            there(host)
    return tweak


class Model:
    """a structure that is built, with numbers everywhere"""

    def __init__(self, ctx, what, name="blank", kind=None, host="a", target="b", inst=False, splitter="snow_rain:linear", before=None, lateral=True, units=None):
        V.reset_budget()
        V.NUMERIC[0] = True
        self.ctx, self.what = ctx, what
        self.before = before
        self.kind = kind
        t = base(kind, host, target, inst, splitter) if name == "blank" else None

        self.b = b = Built(ctx, name, units=units or ([UNIT, UNIT2] if name == "blank" else None), log_all=False, tweak=t)
        self.w = w = b.w
        w.named_finite = True
        self.depth = len(w.frames)
        if name == "blank" and kind and kind.startswith("transport:"):
            w.b("AddLateralConnection", 4, 7, 1.0)
        for l in b.params:
            w.st.s[l] = num(Fraction(1, 2))
        if before:
            before(self)
        w.stop_null = True
        try:
            self.r = b.initialize()
        except NullUse:
            self.r = NULL
        self.ok = b.clean and w.isok(self.r) is TRUE
        self.at = w.at(b.model, "Initialize")

    def components(self):
        """(place, object, computation) of the processes and splitters of the model"""
        b = self.b
        out = []
        for i, br, pr in b.everything():
            out.append(("%s of %s%s" % (b.nm(pr), b.nm(br), " of unit %d" % i if i else ""), pr, "GetChangeRates", br, i))
        for o, i in [(b.sub, 0)] + [(u, b.uid(u)) for u in b.units()]:
            for s in b.splitters(o):
                out.append(("%s%s" % (b.nm(s), " of unit %d" % i if i else ""), s, "Compute", None, i))
        return out

    def inputs(self, o):
        """(field, removed value) of what a component reads"""
        b, w = self.b, self.w
        for f in b.fields(o):
            ty = f["ty"].replace("const ", "").strip()
            v = w.st.s.get(mk("loc", "f", o, f["q"]))
            short = f["q"].rsplit("::", 1)[-1]
            if ty.endswith("*") and strip_ty(ty).rstrip("* ") in ("Forcing", "Brick") or ty in ("Forcing *", "Brick *"):
                if v is not None and v.k == "obj":
                    yield f["q"], short, NULL
            elif v is not None and v.k == "vec" and v.a and all(x.k == "obj" and x in w.exact for x in v.a):
                if all(b.p.is_a(w.exact[x], "Flux") for x in v.a) or all(b.p.is_a(w.exact[x], "Brick") for x in v.a):
                    yield f["q"], short, mk("vec")

    def fill(self, amount):
        """the stores hold something"""
        w, b = self.w, self.b
        for o in [b.sub] + b.units():
            for br in b.bricks(o):
                for c in CT:
                    s = b.snap()
                    w.m(br, "UpdateContent", num(amount), mk("enum", c))
                    if not b.clean:
                        b.back(s)
        return b.clean

    def weather(self, without=()):
        self.b.forcing([k for k in self.b.forcing_kinds() if k not in without], values=lambda k, i, t: num(WEATHER.get(k, 1)))

    def call(self, o, name):
        """the result of a call; NULL when a null pointer is used"""
        V.reset_budget()
        try:
            return self.w.m(o, name)
        except NullUse:
            del self.w.frames[self.depth:]
            return NULL

    def uses_nothing(self, o, how):
        """the computation reads a member of nothing, whatever else; None: not seen to"""
        w = self.w
        n = len(w.nulls)
        V.reset_budget()
        self.call(o, how)
        for pc, fn, line in w.nulls[n:]:
            if pc is TRUE:
                return fn, line
        return None


def place(ctx, kind):
    """a structure of the check that takes the process kind"""
    for host, target, inst in HOSTS:
        try:
            m = Model(ctx, kind, kind=kind, host=host, target=target, inst=inst)
        except (Missing, Broken):
            continue
        if m.ok and m.w.nulls == []:
            return host, target, inst
    return None


def fn_text(fn, line):
    return "%s%s" % ((fn or {}).get("n", "?") if isinstance(fn, dict) else fn or "?", ":%s" % line if line else "")


def one(ctx, m, seen):
    """every input of every component taken away"""
    b, w = m.b, m.w
    m.weather()
    m.fill(40)
    s0 = b.snap()
    if w.m(b.sub, "IsValid") is not TRUE:
        raise Broken("%s: the structure of the check is not valid" % m.what)
    for place_, o, how, br, i in m.components():
        cls = w.exact[o]
        at = w.at(o, "IsValid")
        for q, short, gone in m.inputs(o):
            fresh = (cls, q) not in seen
            key = "%s: %s of %s" % (m.what, short, place_)
            b.back(s0)
            n = len(w.nulls)
            w.st.s[mk("loc", "f", o, q)] = gone
            v = m.call(o, "IsValid")
            crash = next((x for x in w.nulls[n:] if x[0] is TRUE), None)
            if crash:
                ctx.bad("attached", key, at, "%s: the check for validity itself uses it (%s)" % (key, fn_text(*crash[1:])))
                continue
            if v is FALSE:
                if fresh:
                    ctx.ok("attached", key, at)
                seen.add((cls, q))
                b.back(s0)
                w.st.s[mk("loc", "f", o, q)] = gone
                mv = m.call(b.model, "IsValid")
                ctx.check(True if mv is FALSE else False if mv is TRUE and b.clean else None, "position", key, w.at(b.model, "IsValid"),
                          "%s is missing: the component is not valid, but the model is" % key)
                continue
            if v is not TRUE:
                ctx.und("attached", at, key)
                continue
            # valid: nothing of it may be used
            used = None
            if gone is NULL:
                for amount in (40, 2, 400):
                    b.back(s0)
                    m.fill(amount)
                    w.st.s[mk("loc", "f", o, q)] = gone
                    used = m.uses_nothing(o, how)
                    if used:
                        break
            else:
                b.back(s0)
                w.st.s[mk("loc", "f", o, q)] = gone
                if br is not None:
                    c = w.m(o, "GetConnectionCount")
                    if short != "_outputs":
                        used = None
                    elif c.k == "num" and V.p_isconst(c.a[0]) and V.p_constval(c.a[0]) > 0:
                        used = ("GetConnectionCount", None)
                elif short == "_outputs":
                    used = ("Compute", None)
            ctx.check(False if used else True, "attached", key, at,
                      "%s is missing: the component is valid all the same, and its computation uses it (%s)" % (key, fn_text(*(used or ("", None)))))
    b.back(s0)


def structure(ctx, name, **kw):
    m = Model(ctx, name if name != "blank" else kw.get("splitter") or "blank", name=name, **kw)
    if not m.ok:
        raise Broken("%s cannot be initialised in the analysis (%s)" % (m.what, V.show(m.r)[:200]))
    one(ctx, m, set())


def kind(ctx, k):
    p = place(ctx, k)
    if p is None:
        ctx.und("attached", None, "%s: no structure of the check takes this kind" % k)
        return
    m = Model(ctx, k, kind=k, host=p[0], target=p[1], inst=p[2])
    one(ctx, m, set())
    settings(ctx, k, dict(kind=k, host=p[0], target=p[1], inst=p[2]), lambda pth, t: t == k)


# ------------------------------------------------------------------ settings

def items(m):
    """what can be left out of the settings: (label, location of the list, index)"""
    b, w = m.b, m.w
    out = []
    for pth, o in b.walk(w.settings, owned=True):
        cls = w.exact.get(o)
        if cls not in ("ProcessSettings", "SplitterSettings", "BrickSettings", "HydroUnitSplitterSettings"):
            continue
        for f in b.fields(o):
            l = mk("loc", "f", o, f["q"])
            v = w.st.s.get(l)
            if v is None or v.k != "vec" or not v.a:
                continue
            for i, x in enumerate(v.a):
                if x.k == "enum" and "VariableType::" in x.a[0]:
                    out.append(("%s: %s" % (b.pretty(pth), x.a[0].rsplit("::", 1)[-1]), pth, f["q"], i, "forcing"))
                elif x.k == "obj" and w.exact.get(x) == "Parameter" and cls != "BrickSettings":
                    out.append(("%s: %s" % (b.pretty(pth), b.text(x, "GetName")), pth, f["q"], i, "parameter"))
    return out


def settings(ctx, what, kw, keep):
    probe = Model(ctx, what, **kw)
    for label, pth, q, i, sort in items(probe):
        if not keep(pth, type_of(probe, pth)):
            continue

        def leave_out(m):
            o = next(o for p2, o in m.b.walk(m.w.settings, owned=True) if p2 == pth)
            l = mk("loc", "f", o, q)
            v = m.w.st.s[l]
            m.w.st.s[l] = mk("vec", *[x for j, x in enumerate(v.a) if j != i])
        key = "%s without %s" % (what, label)
        m = Model(ctx, key, before=leave_out, **kw)
        w = m.w
        crash = next((x for x in w.nulls if x[0] is TRUE), None)
        if crash:
            ctx.bad("settings", key, m.at, "%s: building the model uses what is missing (%s)" % (key, fn_text(*crash[1:])))
            continue
        if not m.ok:
            refused = w.isok(m.r) is FALSE or w.thrown
            ctx.check(True if refused else None, "settings", key, m.at, key)
            named(ctx, m, key, label.rsplit(": ", 1)[-1], sort)
            continue
        bad = None
        m.weather()
        s0 = m.b.snap()
        for amount in (40, 2, 400):
            for place_, o, how, br, u in m.components():
                m.b.back(s0)
                m.fill(amount)
                bad = m.uses_nothing(o, how)
                if bad:
                    break
            if bad:
                break
        ctx.check(False if bad else True, "settings", key, m.at, "%s: the model is initialised, and %s uses what is missing (%s)" % (key, place_, fn_text(*(bad or ("", None)))))


def type_of(m, pth):
    o = next(o for p2, o in m.b.walk(m.w.settings, owned=True) if p2 == pth)
    t = m.w.st.s.get(mk("loc", "f", o, m.w.exact[o] + "::type"))
    return t.a[0] if t is not None and t.k == "str" else None


# --------------------------------------------------------------------- names

def named(ctx, m, key, name, sort):
    """the error that refused a missing parameter speaks of it"""
    if sort != "parameter":
        return
    for pc, ty, line, file in m.w.thrown[-1:]:
        says(ctx, key, line, file)


def throw_nodes(ctx, line, file):
    for fid, f in ctx.prog.fn.items():
        if f.get("file") != file or not f.get("body"):
            continue
        for x in fn_nodes(f):
            if x.get("k") == "throw" and x.get("l") == line:
                yield f, x


def says(ctx, key, line, file):
    """the message is made of something that is not constant"""
    done = False
    for f, x in throw_nodes(ctx, line, file):
        done = True
        var = any(y.get("k") in ("ref", "mem", "this") and y.get("dk") in ("param", "local", None) for y in walk(x))
        ctx.check(bool(var), "named", key, ctx.at(f),
                  "%s: the error of %s does not contain the name" % (key, f["n"]))
    if not done:
        ctx.und("named", None, key)


ASKS = (("AddBrickForcing", "SelectHydroUnitBrick", "a"), ("AddProcessForcing", "SelectProcess", "outflow"), ("AddSplitterForcing", "SelectHydroUnitSplitter", "snow_rain_transition"))


def names(ctx):
    """forcing names: what is supported is added, anything else refused by name"""
    from ..model import World
    from ..structures import MORE, STRUCTURES
    for meth, sel, name in ASKS:
        for asked in ("precipitation", "pet", "temperature", "temperature_min", "temperature_max", "solar_radiation", "", "rain", "Precipitation2", "humidity", "snow"):
            w = World(ctx)
            base(None, "a", "b", False)(w)
            if sel == "SelectProcess":
                w.s("SelectHydroUnitBrick", "a")
            w.s(sel, name)
            n = len(w.throws)
            size = forcings(w)
            w.s(meth, asked)
            key = "%s(\"%s\")" % (meth, asked)
            at = w.at(w.settings, meth)
            if w.throws[n:]:
                ctx.ok("named", key, at)
                says(ctx, key, *w.throws[-1][2:4])
            else:
                got = forcings(w) - size
                ctx.check(True if got == 1 else False if asked not in WORDS and not w.notes else None, "named", key, at, "%s is accepted without adding a forcing" % key if got != 1 else key)
                if got == 1:
                    ctx.check(asked in WORDS, "named", key + " known", at, "%s is accepted" % key)


WORDS = ("precipitation", "pet", "temperature", "temperature_min", "temperature_max", "solar_radiation")


def forcings(w):
    """how many forcings the settings hold"""
    return sum(1 for l, v in w.st.s.items() if l.a[0] == "f" and v.k == "vec" for x in v.a if x.k == "enum" and "VariableType::" in x.a[0])


# ------------------------------------------------------------------- no data

def data(ctx, name, kw, without):
    m = Model(ctx, name, name=kw.pop("name", "blank"), **kw)
    b, w = m.b, m.w
    if not m.ok or without not in b.forcing_kinds():
        raise Broken("%s cannot be prepared" % name)
    m.weather(without=(without,))
    m.fill(40)
    n = len(w.nulls)
    V.reset_budget()
    r = m.call(b.model, "Run")
    at = w.at(b.model, "Run")
    key = "%s without data of %s" % (name, without)
    used = next((x for x in w.nulls[n:] if x[0] is TRUE), None)
    if used:
        ctx.bad("no data", key, at, "%s: a run reads the series that is not there (%s)" % (key, fn_text(*used[1:])))
    elif b.clean and w.isok(r) is TRUE:
        f = w.new("Forcing", mk("enum", "VariableType::" + without))
        k = len(w.throws)
        v = w.m(f, "GetValue")
        ctx.check(None if w.throws[k:] else False, "no data", key, at, "%s: the run succeeds with %s for a value" % (key, V.show(v)))
    else:
        refused = w.isok(r) is FALSE or w.escaped()
        ctx.check(True if refused else None, "no data", key, at, key)


def run(ctx):
    reg = Registry(ctx.prog)
    ctx.rule("attached", "a component that lacks an input it uses is not valid")
    ctx.rule("position", "the model is not valid then")
    ctx.rule("settings", "what is left out of the settings is refused when the model is initialised, or never used")
    ctx.rule("no data", "a forcing without data is not read")
    ctx.rule("named", "the error for what is not supported names it")
    for n in ("socont", "hbv", "outlets", "gr4j", "covers"):
        ctx.each("attached", n, structure, ctx, n)
    for s in SPLITTERS:
        ctx.each("attached", s, lambda s=s: structure(ctx, "blank", splitter=s))
        ctx.each("settings", s, settings, ctx, s, dict(splitter=s), lambda pth, t: "plitter" in pth)
    for k in sorted(reg.rows):
        ctx.each("attached", k, kind, ctx, k)
    for n, kinds in (("socont", ("Precipitation", "Temperature", "PET")), ("hbv", ("Precipitation", "Temperature", "PET")), ("gr4j", ("Precipitation", "Temperature", "PET"))):
        for x in kinds:
            ctx.each("no data", n + x, lambda n=n, x=x: data(ctx, n, {"name": n}, x))
    ctx.each("named", "names", names, ctx)


