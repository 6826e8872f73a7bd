"""Model structures as the package's own generators put them together, built by evaluating
the settings, basin and builder code. Parameter values, contents and forcing are symbols;
the structure (names, kinds, connections, areas) is fixed."""
from fractions import Fraction
from . import vals as V
from .vals import mk, num, nat, NULL, TRUE, FALSE
from .model import World, conv
from .bench import Missing
from .ir import strip_ty, smart_inner

START, END = "2020-01-01", "2020-01-03"


class Built:
    """a model evaluated up to a chosen stage"""

    def __init__(self, ctx, name, solver="heun_explicit", units=None, log_all=True, start=START, end=END, step=1, unit="day", spinup=0, tweak=None, values=None, **kw):
        self.ctx, self.name, self.values = ctx, name, values or {}
        self.w = w = World(ctx, **kw)
        self.p = w.p
        w.s("SetSolver", solver)
        w.s("SetTimer", start, end, step, unit)
        if spinup:
            w.s("SetSpinupDays", spinup)
        w.s("SetLogAll", log_all)
        spec = STRUCTURES.get(name) or MORE[name]
        spec["settings"](w)
        if tweak:
            tweak(w)
        for u in (units or spec["units"]):
            self.add_unit(u)
        for c in spec.get("lateral", ()):
            w.b("AddLateralConnection", *c)
        self.params = self.symbols()
        self.sub = w.new("SubBasin")
        self.model = w.new("ModelHydro", self.sub)
        self.timer = self.part("TimeMachine")
        self.processor = self.part("Processor")
        self.logger = self.part("Logger")
        self.actions = self.part("ActionsManager")

    def part(self, cls):
        """the member of the model of that class"""
        for c in [self.w.exact[self.model]] + [b for b in self.p.bases(self.w.exact[self.model]) if b != self.w.exact[self.model]]:
            for f in self.p.cls[c]["fields"]:
                if strip_ty(f["ty"]) == cls:
                    return self.w.objat(mk("loc", "f", self.model, f["q"]))
        raise Missing("%s member of the model" % cls)

    def add_unit(self, u):
        w = self.w
        w.b("AddHydroUnit", u["id"], u["area"])
        for n, fr in u["covers"]:
            w.b("AddLandCover", n, "", fr)
        for n, v, un in u.get("props", ()):
            w.b("AddHydroUnitPropertyDouble", n, v, un)
        for n, v in u.get("sprops", ()):
            w.b("AddHydroUnitPropertyString", n, v)

    # ---------------------------------------------------------- walking the heap
    def walk(self, root, stop=(), owned=False):
        """(path, object) for every program object reachable from root, owner first;
        with owned, plain pointers are not followed"""
        seen, out = {root}, []
        todo = [("", root)]
        byobj = {}
        for l in self.w.st.s:
            if l.a[0] == "f":
                byobj.setdefault(l.a[1], []).append(l)
        while todo:
            path, o = todo.pop(0)
            out.append((path, o))
            cls = self.w.exact.get(o)
            if cls is None:
                continue
            plain = {f["q"] for f in self.fields(o) if f["ty"].strip().endswith(("*", "&"))} if owned else ()
            for l in sorted(byobj.get(o, ()), key=lambda l: l.a[2]):
                if l.a[2] in plain:
                    continue
                self.follow(path + "." + l.a[2].rsplit("::", 1)[-1], self.w.st.s[l], seen, todo, stop)
            for c in [cls] + [b for b in self.p.bases(cls) if b != cls]:
                for f in self.p.cls[c]["fields"]:
                    if self.w.kind(f["ty"]) == "class":
                        s = self.w.objat(mk("loc", "f", o, f["q"]))
                        if s in self.w.exact:
                            self.follow(path + "." + f["q"].rsplit("::", 1)[-1], s, seen, todo, stop)
        return out

    def follow(self, path, v, seen, todo, stop):
        if v.k == "obj" and v in self.w.exact:
            if v not in seen and not any(self.p.is_a(self.w.exact[v], c) for c in stop):
                seen.add(v)
                todo.append((path, v))
        elif v.k == "addr" and v.a[0].a[0] == "f":
            self.follow(path, v.a[0].a[1], seen, todo, stop)
        elif v.k == "vec":
            for i, x in enumerate(v.a):
                self.follow("%s[%d]" % (path, i), x, seen, todo, stop)
        elif v.k == "map":
            for i in range(1, len(v.a), 2):
                self.follow("%s[%s]" % (path, V.show(v.a[i])), v.a[i + 1], seen, todo, stop)
        elif v.k == "set":
            for i, x in enumerate(v.a[1:]):
                self.follow("%s{%d}" % (path, i), x, seen, todo, stop)

    def all(self, root, cls, owned=False):
        return [(pth, o) for pth, o in self.walk(root, owned=owned) if self.w.exact.get(o) and self.p.is_a(self.w.exact[o], cls)]

    def fields(self, o):
        cls = self.w.exact[o]
        for c in [cls] + [b for b in self.p.bases(cls) if b != cls]:
            for f in self.p.cls[c]["fields"]:
                yield f

    def owned(self, o, cls):
        """the objects of that class in the containers of o, in order"""
        out = []
        for f in self.fields(o):
            v = self.w.st.s.get(mk("loc", "f", o, f["q"]))
            if v is not None and v.k == "vec":
                out += [x for x in v.a if x.k == "obj" and x in self.w.exact and self.p.is_a(self.w.exact[x], cls) and x not in out]
        return out

    def symbols(self, tag=""):
        """every parameter of the settings gets a symbol for a value; gives {location: name}"""
        w = self.w
        out = {}
        for pth, o in self.walk(w.settings, owned=True):
            if w.exact.get(o) == "Parameter":
                n = self.text(o, "GetName")
                owner = pth.rsplit(".", 1)[0]
                nm = "%s/%s%s" % (self.pretty(owner), n, tag)
                for f in self.fields(o):
                    if w.kind(f["ty"]) == "num":
                        l = mk("loc", "f", o, f["q"])
                        old = w.st.s.get(l)
                        if n in self.values:
                            w.st.s[l] = num(self.values[n])
                            continue
                        if n in FLAGS and not tag:
                            continue
                        w.st.s[l] = nat(("name", nm))
                        out[l] = nm
        return out

    def text(self, o, getter):
        v = self.w.m(o, getter)
        return v.a[0] if v.k == "str" else V.show(v)

    def pretty(self, path):
        """a settings path with the names of the elements"""
        o, out = self.w.settings, []
        import re
        for part in re.findall(r"\.([A-Za-z_0-9]+)((?:\[\d+\])*)", path):
            f = next((f for f in self.fields(o) if f["q"].rsplit("::", 1)[-1] == part[0]), None)
            if f is None:
                return path
            v = self.w.st.s.get(mk("loc", "f", o, f["q"]))
            if v is None or v.k != "vec":
                return path
            for i in re.findall(r"\d+", part[1]):
                o = v.a[int(i)]
            nf = next((g for g in self.fields(o) if g["q"].endswith("::name")), None)
            nv = self.w.st.s.get(mk("loc", "f", o, nf["q"])) if nf else None
            out.append(nv.a[0] if nv is not None and nv.k == "str" else "".join(part))
        return ".".join(out)

    # ---------------------------------------------------------------- stages
    def snap(self):
        w = self.w
        return w.st.copy(), len(w.throws), len(w.events), len(w.notes)

    def back(self, s):
        """return to a snapshot"""
        w = self.w
        w.st = s[0].copy()
        del w.throws[s[1]:], w.events[s[2]:], w.notes[s[3]:]

    @property
    def clean(self):
        """nothing was thrown or left unknown on the way here"""
        return self.w.st.pc is TRUE and not self.w.escaped()

    def initialize(self):
        """the whole initialisation; gives the result"""
        w = self.w
        w.m(self.sub, "Initialize", w.basin)
        mb = w.new("ModelBuilder", self.sub, self.timer, self.logger)
        w.m(mb, "AssignHydroUnitStructures", w.settings, w.basin)
        return w.m(self.model, "Initialize", w.settings, w.basin)

    def units(self):
        n = self.w.m(self.sub, "GetHydroUnitCount")
        return [self.w.m(self.sub, "GetHydroUnit", num(i)) for i in range(int(V.p_constval(n.a[0])))]

    def bricks(self, owner):
        n = self.w.m(owner, "GetBrickCount")
        return [self.w.m(owner, "GetBrick", num(i)) for i in range(int(V.p_constval(n.a[0])))]

    def processes(self, brick):
        n = self.w.m(brick, "GetProcessCount")
        return [self.w.m(brick, "GetProcess", num(i)) for i in range(int(V.p_constval(n.a[0])))]

    def outputs(self, process):
        n = self.w.m(process, "GetOutputFluxCount")
        return [self.w.m(process, "GetOutputFlux", num(i)) for i in range(int(V.p_constval(n.a[0])))]

    def splitters(self, owner):
        n = self.w.m(owner, "GetSplitterCount")
        return [self.w.m(owner, "GetSplitter", num(i)) for i in range(int(V.p_constval(n.a[0])))]

    def nm(self, o):
        return self.text(o, "GetName")

    def uid(self, u):
        return int(V.p_constval(self.w.m(u, "GetId").a[0]))

    def everything(self):
        """(unit id or 0, brick, process) over the whole model"""
        for o, i in [(self.sub, 0)] + [(u, self.uid(u)) for u in self.units()]:
            for b in self.bricks(o):
                for pr in self.processes(b):
                    yield i, b, pr

    # -------------------------------------------------------------- forcing
    def forcing_kinds(self):
        """the kinds of forcing the units ask for"""
        out = []
        for u in self.units():
            for pth, o in self.walk(u, owned=True):
                if self.w.exact.get(o) == "Forcing":
                    v = self.w.m(o, "GetType")
                    if v.k == "enum" and v.a[0].rsplit("::", 1)[-1] not in out:
                        out.append(v.a[0].rsplit("::", 1)[-1])
        return out

    def forcing(self, kinds, n=3, start=58849, step=1, unit="Day", values=None):
        """time series with symbols, added and attached; gives the results of the calls"""
        w = self.w
        out = []
        days = step * {"Day": 1, "Hour": Fraction(1, 24), "Minute": Fraction(1, 1440), "Week": 7}[unit]
        for k in kinds:
            ts = w.new("TimeSeriesDistributed", mk("enum", "VariableType::" + k))
            for u in self.units():
                i = self.uid(u)
                d = w.new("TimeSeriesDataRegular", num(w.rounded(start)), num(w.rounded(start + (n - 1) * days)), num(step), mk("enum", "TimeUnit::" + unit))
                vs = [values(k, i, t) if values else nat(("name", "%s[%d,%d]" % (k, i, t))) for t in range(n)]
                out.append(w.m(d, "SetValues", mk("vec", *vs)))
                w.m(ts, "AddData", d, num(i))
            out.append(w.m(self.model, "AddTimeSeries", ts))
        out.append(w.m(self.model, "AttachTimeSeriesToHydroUnits"))
        return out


FLAGS = ("no_melt_when_snow_cover", "infinite_storage")


def proc(w, name, kind, target="", inst=False):
    w.s("AddBrickProcess", name, kind, target)
    if kind in ("outflow:direct", "outflow:rest"):
        w.s("SetProcessOutputsAsStatic")
    if inst:
        w.s("SetProcessOutputsAsInstantaneous")


def glacier_covers(w, names):
    for n in names:
        w.s("SelectHydroUnitBrick", n)
        w.s("AddBrickParameter", "no_melt_when_snow_cover", 1.0)
        w.s("AddBrickParameter", "infinite_storage", 1.0)
        proc(w, "outflow_rain_snowmelt", "outflow:direct", "glacier_area_rain_snowmelt_storage", True)
        proc(w, "melt", "melt:degree_day", "glacier_area_icemelt_storage", True)


def glacier_stores(w):
    for n in ("glacier_area_rain_snowmelt_storage", "glacier_area_icemelt_storage"):
        w.s("AddSubBasinBrick", n, "storage")
        proc(w, "outflow", "outflow:linear", "outlet")


def socont_bricks(w, second=False):
    w.s("SelectHydroUnitBrick", "open")
    proc(w, "infiltration", "infiltration:socont", "slow_reservoir")
    proc(w, "runoff", "outflow:rest", "surface_runoff")
    w.s("AddHydroUnitBrick", "slow_reservoir", "storage")
    w.s("AddBrickParameter", "capacity", 200.0)
    proc(w, "et", "et:socont")
    proc(w, "outflow", "outflow:linear", "outlet")
    proc(w, "overflow", "overflow", "outlet")
    if second:
        proc(w, "percolation", "percolation:constant", "slow_reservoir_2")
        w.s("AddHydroUnitBrick", "slow_reservoir_2", "storage")
        proc(w, "outflow", "outflow:linear", "outlet")
    w.s("AddHydroUnitBrick", "surface_runoff", "storage")
    proc(w, "runoff", "outflow:linear", "outlet")
    w.s("AddLoggingToItem", "outlet")


def socont(w):
    """one structure with a glacier; snow sliding and snow turning to ice"""
    w.s("GeneratePrecipitationSplitters", True)
    w.s("AddLandCoverBrick", "open", "generic_land_cover")
    w.s("AddLandCoverBrick", "glacier", "glacier")
    w.s("GenerateSnowpacks", "melt:degree_day")
    w.s("AddSnowIceTransformation", "transformation:snow_ice_constant")
    w.s("AddSnowRedistribution", "transport:snow_slide")
    w.s("AddSnowpackSublimation", "sublimation:constant")
    glacier_covers(w, ["glacier"])
    glacier_stores(w)
    socont_bricks(w, True)


def socont_plain(w):
    w.s("GeneratePrecipitationSplitters", True)
    w.s("AddLandCoverBrick", "open", "generic_land_cover")
    w.s("AddLandCoverBrick", "glacier", "glacier")
    w.s("GenerateSnowpacks", "melt:degree_day")
    glacier_covers(w, ["glacier"])
    glacier_stores(w)
    socont_bricks(w)


def hbv_basics(w, covers, forest=True):
    w.s("GeneratePrecipitationSplitters", True, "snow_rain:linear")
    for n, t in covers:
        w.s("AddLandCoverBrick", n, t)
    if forest:
        w.s("GenerateCanopyInterception", "forest", "forest_snowpack")
    w.s("GenerateSnowpacksWithWaterRetention", "melt:degree_day", "outflow:snow_holding", True)
    w.s("AddSnowpackRefreezing", "refreeze:degree_day")


def hbv_response(w, soils):
    for c in soils:
        w.s("SelectHydroUnitBrick", c)
        proc(w, "infiltration", "infiltration:hbv", c + "_soil_moisture")
        proc(w, "recharge", "outflow:rest", "upper_zone")
    w.s("AddHydroUnitBrick", "upper_zone", "storage")
    proc(w, "capillary", "capillary:hbv", soils[0] + "_soil_moisture")
    for c in soils[1:]:
        w.s("AddProcessOutput", c + "_soil_moisture")
    proc(w, "percolation", "percolation:constant", "lower_zone")
    proc(w, "runoff", "runoff:hbv", "routing")
    w.s("AddHydroUnitBrick", "lower_zone", "storage")
    proc(w, "outflow", "outflow:linear", "routing")
    for c in soils:
        w.s("AddHydroUnitBrick", c + "_soil_moisture", "storage")
        w.s("AddBrickParameter", "capacity", 250.0)
        proc(w, "et", "et:hbv")
        proc(w, "overflow", "overflow", "routing")
    w.s("AddHydroUnitBrick", "routing", "storage")
    proc(w, "routing", "routing:hbv", "outlet")


def hbv(w):
    """three variants: without glacier, with glacier, lake"""
    G = "generic_land_cover"
    soils = ["open", "forest"]
    hbv_basics(w, [("open", G), ("forest", G)])
    hbv_response(w, soils)
    glacier_stores(w)
    w.s("AddLoggingToItem", "outlet")
    w.s("AddStructure")
    hbv_basics(w, [("open", G), ("forest", G), ("glacier", "glacier")])
    hbv_response(w, soils)
    glacier_covers(w, ["glacier"])
    glacier_stores(w)
    w.s("AddLoggingToItem", "outlet")
    w.s("AddStructure")
    w.s("GeneratePrecipitationSplitters", False, "snow_rain:linear")
    w.s("AddLandCoverBrick", "lake", G)
    w.s("SelectHydroUnitBrick", "lake")
    proc(w, "outflow", "outflow:direct", "lake_storage", True)
    w.s("AddHydroUnitBrick", "lake_storage", "storage")
    proc(w, "et", "et:open_water")
    proc(w, "outflow", "outflow:linear", "outlet")
    w.s("AddLoggingToItem", "outlet")


def gr4j(w):
    w.s("GeneratePrecipitationSplitters", True, "snow_rain:cemaneige")
    w.s("AddLandCoverBrick", "open", "generic_land_cover")
    w.s("GenerateSnowpacks", "melt:cemaneige")
    w.s("SelectHydroUnitBrick", "open")
    proc(w, "interception", "interception:gr4j")
    proc(w, "throughfall", "outflow:rest", "production_store", True)
    w.s("AddHydroUnitBrick", "production_store", "storage")
    w.s("SetCurrentBrickComputedDirectly")
    w.s("AddBrickParameter", "capacity", 350.0)
    proc(w, "production", "production:gr4j", "uh_input")
    proc(w, "et", "et:gr4j")
    w.s("AddHydroUnitBrick", "uh_input", "storage")
    w.s("SetCurrentBrickComputedDirectly")
    proc(w, "routing", "routing:gr4j", "outlet")
    w.s("AddLoggingToItem", "outlet")


def outlets(w):
    """every way of reaching the outlet: from covers, snowpacks, stores and splitters, of units and basin"""
    w.s("GeneratePrecipitationSplitters", True)
    w.s("AddLandCoverBrick", "open", "generic_land_cover")
    w.s("AddLandCoverBrick", "glacier", "glacier")
    w.s("GenerateSnowpacks", "melt:degree_day")
    w.s("SelectHydroUnitBrick", "glacier_snowpack")
    proc(w, "seep", "outflow:linear", "outlet")
    w.s("SelectHydroUnitBrick", "open_snowpack")
    proc(w, "drip", "outflow:linear", "upper")
    proc(w, "gully", "outflow:linear", "store")
    w.s("SelectHydroUnitBrick", "open")
    proc(w, "runoff", "outflow:rest", "outlet")
    proc(w, "gully", "outflow:linear", "gather")
    proc(w, "soak", "outflow:linear", "upper", True)
    w.s("SelectHydroUnitBrick", "glacier")
    w.s("AddBrickParameter", "no_melt_when_snow_cover", 1.0)
    w.s("AddBrickParameter", "infinite_storage", 1.0)
    proc(w, "drain", "outflow:linear", "store", True)
    proc(w, "melt", "melt:degree_day", "outlet")
    proc(w, "leak", "outflow:linear", "share")
    w.s("AddHydroUnitBrick", "upper", "storage")
    proc(w, "outflow", "outflow:linear", "outlet")
    proc(w, "fast", "outflow:linear", "share")
    proc(w, "deep", "percolation:constant", "store")
    w.s("AddHydroUnitSplitter", "share", "multi_fluxes")
    w.s("AddSplitterOutput", "outlet")
    w.s("AddSplitterOutput", "store")
    w.s("AddSplitterOutput", "gather")
    w.s("AddSplitterOutput", "spread")
    w.s("AddHydroUnitSplitter", "spread", "multi_fluxes")
    w.s("AddSplitterOutput", "upper")
    w.s("AddSubBasinBrick", "store", "storage")
    proc(w, "outflow", "outflow:linear", "outlet")
    proc(w, "percolation", "percolation:constant", "deep")
    w.s("AddSubBasinBrick", "deep", "storage")
    proc(w, "outflow", "outflow:linear", "outlet")
    proc(w, "second", "outflow:linear", "outlet")
    w.s("AddSubBasinSplitter", "gather", "multi_fluxes")
    w.s("AddSplitterOutput", "outlet")
    w.s("AddSplitterOutput", "deep")
    w.s("AddSplitterOutput", "pool")
    w.s("AddSubBasinSplitter", "pool", "multi_fluxes")
    w.s("AddSplitterOutput", "outlet")
    w.s("AddLoggingToItem", "outlet")


def covers(w):
    """stores of every kind over the covers; the glacier ice is limited"""
    G = "generic_land_cover"
    hbv_basics(w, [("open", G), ("forest", G), ("glacier", "glacier")])
    hbv_response(w, ["open", "forest"])
    w.s("SelectHydroUnitBrick", "glacier")
    w.s("AddBrickParameter", "no_melt_when_snow_cover", 1.0)
    proc(w, "outflow_rain_snowmelt", "outflow:direct", "glacier_area_rain_snowmelt_storage", True)
    proc(w, "melt", "melt:degree_day", "glacier_area_icemelt_storage", True)
    glacier_stores(w)
    w.s("AddLoggingToItem", "outlet")


def ground(w, cov=(("glacier", "glacier"), ("ground", "generic_land_cover"), ("debris", "glacier"))):
    """covers without retention in their snowpacks; two of them glaciers, one without end"""
    w.s("GeneratePrecipitationSplitters", True)
    for n, t in cov:
        w.s("AddLandCoverBrick", n, t)
    w.s("GenerateSnowpacks", "melt:degree_day")
    for n, t in cov:
        w.s("SelectHydroUnitBrick", n)
        if t == "glacier":
            w.s("AddBrickParameter", "no_melt_when_snow_cover", 1.0)
            w.s("AddBrickParameter", "infinite_storage", 1.0 if n == "debris" else 0.0)
            proc(w, "melt", "melt:degree_day", "glacier_area_icemelt_storage", True)
            proc(w, "outflow_rain_snowmelt", "outflow:direct", "glacier_area_rain_snowmelt_storage", True)
        else:
            proc(w, "runoff", "outflow:linear", "outlet")
    glacier_stores(w)
    w.s("AddLoggingToItem", "outlet")


def no_ground(w):
    """covers none of which can make up for a change"""
    ground(w, (("glacier", "glacier"), ("forest", "generic_land_cover")))


PROPS = (("elevation", 2000.0, "m"), ("slope", 20.0, "degrees"))
SPROPS = (("aspect_class", "N"),)


def units(*rows):
    return [{"id": i, "area": a, "covers": cov, "props": PROPS, "sprops": SPROPS} for i, a, cov in rows]


STRUCTURES = {
    "socont": {"settings": socont, "lateral": ((3, 7, 0.75), (3, 12, 0.25)),
               "units": units((7, 100.0, (("open", 0.75), ("glacier", 0.25))), (3, 300.0, (("open", 0.5), ("glacier", 0.5))),
                              (12, 400.0, (("open", 1.0), ("glacier", 0.0))))},
    "socont-plain": {"settings": socont_plain,
                     "units": units((1, 100.0, (("open", 0.75), ("glacier", 0.25))), (2, 300.0, (("open", 0.5), ("glacier", 0.5))))},
    "hbv": {"settings": hbv,
            "units": units((5, 100.0, (("open", 0.25), ("forest", 0.75))), (2, 300.0, (("open", 0.5), ("forest", 0.25), ("glacier", 0.25))),
                           (9, 400.0, (("lake", 1.0),)))},
    "outlets": {"settings": outlets, "units": units((4, 100.0, (("open", 0.75), ("glacier", 0.25))), (1, 300.0, (("open", 0.5), ("glacier", 0.5))))},
    "gr4j": {"settings": gr4j, "units": units((1, 100.0, (("open", 1.0),)), (2, 300.0, (("open", 1.0),)))},
}
# further structures for single checks
MORE = {
    "blank": {"settings": lambda w: None, "units": ()},
    "covers": {"settings": covers, "units": units((6, 200.0, (("open", 0.5), ("forest", 0.25), ("glacier", 0.25))))},
    "ground": {"settings": ground, "units": units((6, 200.0, (("glacier", 0.25), ("ground", 0.5), ("debris", 0.25))))},
    "no-ground": {"settings": no_ground, "units": units((6, 200.0, (("glacier", 0.25), ("forest", 0.75))))},
}
