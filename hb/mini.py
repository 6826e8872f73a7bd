"""Small basins built by the code's own constructors and connection methods; every process
has unknown rates.  One time step of the real processor and solvers is then evaluated."""
from . import vals as V
from .vals import mk, obj, num, nat, NULL
from .scene import *
from .bench import Bench, Missing
from .ir import strip_ty
from fractions import Fraction as Q


class Mini(Bench):
    def __init__(self, ctx, hooks=None, opaque=(), names=None):
        self.rates = {}          # process -> list of values, or a function of the number of the evaluation
        self.evals = {}
        self.uh = dict(hooks or {})
        h = dict(self.uh, call=self.mcall)
        super().__init__(ctx, opaque=opaque, hooks=h, names=names)
        self.basin = self.new("SubBasin")
        self.model = self.root("model", "ModelHydro")
        self.proc = self.new("Processor")
        self.m(self.proc, "SetModel", self.model)
        self.units = []

    def mcall(self, ev, e, n, recv, args, tgt):
        if "call" in self.uh:
            r = self.uh["call"](ev, e, n, recv, args, tgt)
            if r is not None:
                return r
        s = n.rsplit("::", 1)[-1]
        if n == "ModelHydro::GetSubBasin":
            return self.basin
        if s in ("GetChangeRates", "GetRates") and recv in self.rates:
            k = self.evals.get(recv, 0)
            self.evals[recv] = k + 1
            r = self.rates[recv]
            r = r(k) if callable(r) else r
            return mk("vec", *[N(x).v for x in r])
        if s == "GetConnectionCount" and recv in self.rates:
            r = self.rates[recv]
            return num(len(r(0) if callable(r) else r))
        return None

    def add_unit(self, area=1):
        u = self.new("HydroUnit", N(area).v)
        self.m(self.basin, "AddHydroUnit", u)
        self.units.append(u)
        return u

    def add_brick(self, owner, cls, name, content=None):
        b = self.new(cls)
        self.m(b, "SetName", V.string(name))
        self.m(owner, "AddBrick", b)
        if content is not None:
            self.m(self.water(b), "UpdateContent", N(content).v)
        return b

    def water(self, b):
        return self.m(b, "GetWaterContainer")

    def process_to(self, b, rates, fluxes, container=None, cls="ProcessOutflowLinear"):
        p = self.new(cls, container or self.water(b))
        for f in fluxes:
            self.m(p, "AttachFluxOut", f)
        self.m(b, "AddProcess", p)
        self.rates[p] = rates
        return p

    def flux_to(self, target, cls="FluxToBrick"):
        f = self.new(cls, target)
        self.m(target, "AttachFluxIn", f)
        return f

    def outlet(self):
        f = self.new("FluxToOutlet")
        self.m(self.basin, "AttachOutletFlux", f)
        return f

    def content(self, b):
        return Name(self.m(self.water(b), "GetContentWithoutChanges"))

    def connect(self):
        self.m(self.proc, "ConnectToElementsToSolve")


SOLVERS = {
    # class: (stages: which earlier stage and with which factor, weights)
    "SolverEulerExplicit": ([()], [1]),
    "SolverHeunExplicit": ([(), (0, 1)], [Q(1, 2), Q(1, 2)]),
    "SolverRK4": ([(), (0, Q(1, 2)), (1, Q(1, 2)), (2, 1)], [Q(1, 6), Q(1, 3), Q(1, 3), Q(1, 6)]),
}


class Chain(Mini):
    """unit store A -> basin store B -> outlet, with rates r0, r1.. of A and s0, s1.. of B
    at the successive evaluations"""

    def __init__(self, ctx, solver, facts=None, a=None, b=None, na=1, nb=1, dt=1, hooks=None, low=None, high=None, sequential=False):
        super().__init__(ctx, hooks=hooks)
        self.a0, self.b0, self.dt = a if a is not None else nm("a"), b if b is not None else nm("b"), N(dt)
        self.na, self.nb = na, nb
        lo, hi = low or Q(1, 100), high or 10
        fs = [self.a0 > 1000, self.b0 > 1000] if facts is None else list(facts)
        for k in range(8):
            for p, n in (("r", na), ("s", nb)):
                for i in range(n):
                    x = self.rt(p, k, i)
                    fs += [x > lo, x < hi]
        self.assume(*fs)
        self.u = self.add_unit()
        self.A = self.add_brick(self.u, "Storage", "A", self.a0)
        self.B = self.add_brick(self.basin, "Storage", "B", self.b0)
        self.seen = []
        self.outf = [self.outlet() for i in range(nb)]
        self.toB = [self.flux_to(self.B) for i in range(na)]
        self.pa = self.process_to(self.A, self.counted("r", na), self.toB)
        self.pb = self.process_to(self.B, self.counted("s", nb), self.outf)
        self.connect()
        if self.throws:
            raise V.Unknown("building the chain throws")
        self.solver = self.new(solver)
        self.m(self.solver, "Connect", self.proc)
        self.m(self.solver, "InitializeContainers")
        self.seen.clear()

    def rt(self, p, k, i):
        return nm("%s%d%s" % (p, k, "abcdef"[i] if i or (self.na if p == "r" else self.nb) > 1 else ""))

    def counted(self, p, n):
        def f(k):
            return [self.rt(p, k, i) for i in range(n)]
        return f

    def mcall(self, ev, e, n, recv, args, tgt):
        if n.endswith("::GetChangeRates") and recv in self.rates and recv in (getattr(self, "pa", None), getattr(self, "pb", None)):
            br = self.A if recv is self.pa else self.B
            self.seen.append(("A" if br is self.A else "B", Name(self.m(self.water(br), "GetContentWithChanges"))))
        return super().mcall(ev, e, n, recv, args, tgt)

    def solve(self):
        return self.m(self.solver, "Solve", self.dt.v)

    def discharge(self):
        self.m(self.basin, "ComputeOutletDischarge")
        p = self.m(self.basin, "GetValuePointer", V.string("outlet"))
        if p.k != "addr":
            raise V.Unknown("outlet value")
        return Name(self.load(p.a[0], "double"))


class Line(Mini):
    """unit store 0 -> unit store 1 -> ... -> basin store -> outlet; rates[i] gives the rate of
    store i (a value, or a function of the number of the evaluation); caps[i] its capacity"""

    def __init__(self, ctx, solver, contents, rates, caps=None, over=(), dt=1, facts=(), null=(), direct=(), order=None):
        super().__init__(ctx)
        self.assume(*facts)
        self.dt = N(dt)
        self.u = self.add_unit()
        n = len(contents)
        self.st_ = []
        for i, c in enumerate(contents):
            last = i == n - 1
            b = self.add_brick(self.basin if last else self.u, "GenericLandCover" if i in direct else "Storage", "S%d" % i, c)
            self.st_.append(b)
            if caps and caps[i] is not None:
                a, l = self.cell(N(caps[i]).v)
                self.m(self.water(b), "SetMaximumCapacity", a)
            if i in null:
                self.m(b, "SetAreaFraction", num(0))
        self.pr, self.fx = [], []
        self.extra = {}
        for i, b in enumerate(self.st_):
            f = self.outlet() if i == n - 1 else self.flux_to(self.st_[i + 1])
            r = rates[i]
            self.pr.append(self.process_to(b, (lambda k, r=r: [r(k)]) if callable(r) else [r], [f]))
            self.fx.append(f)
            if i in over:
                f2 = self.outlet() if i == n - 1 else self.flux_to(self.st_[i + 1])
                p = self.new("ProcessOutflowOverflow", self.water(b))
                self.m(p, "AttachFluxOut", f2)
                self.m(b, "AddProcess", p)
                self.m(self.water(b), "LinkOverflow", p)
                self.extra[i] = f2
        self.connect()
        if self.throws:
            raise V.Unknown("building the stores throws")
        self.solver = self.new(solver)
        self.m(self.solver, "Connect", self.proc)
        self.m(self.solver, "InitializeContainers")
        self.rates = dict(self.rates)

    def solve(self):
        return self.m(self.solver, "Solve", self.dt.v)

    def contents(self):
        return [self.content(b) for b in self.st_]

    def discharge(self):
        self.m(self.basin, "ComputeOutletDischarge")
        p = self.m(self.basin, "GetValuePointer", V.string("outlet"))
        if p.k != "addr":
            raise V.Unknown("outlet value")
        return Name(self.load(p.a[0], "double"))

    def moved(self, i):
        return Name(self.m(self.fx[i], "GetAmount"))


class Step(Mini):
    """whole time steps of the processor over a basin put together by the caller"""

    def solver(self, cls="SolverEulerExplicit"):
        s = self.new(cls)
        self.m(s, "Connect", self.proc)
        self.connect()
        self.m(s, "InitializeContainers")
        self.put_field(self.proc, "Processor", "Solver", s)
        for f in self.p.cls["Processor"]["fields"]:
            if strip_ty(f["ty"]) == "Eigen::Array<double, -1, 1>":
                self.store(mk("loc", "f", self.proc, f["q"]), mk("vec", *[num(0)] * 16))
        if self.throws:
            raise V.Unknown("building the basin throws")

    def step(self, dt=1):
        return self.m(self.proc, "ProcessTimeStep", N(dt).v)

    def outlet_value(self):
        p = self.m(self.basin, "GetValuePointer", V.string("outlet"))
        if p.k != "addr":
            raise V.Unknown("outlet value")
        return Name(self.load(p.a[0], "double"))

    def flux(self, cls, target=None, owner=None, type_=None, static=False, weighted=False, unit=None):
        f = self.new(cls, target) if target is not None else self.new(cls)
        if type_:
            self.m(f, "SetType", mk("enum", "ContentType::" + type_))
        if static:
            self.m(f, "SetAsStatic")
        if weighted:
            self.m(f, "NeedsWeighting", V.TRUE)
        if unit is not None:
            self.m(f, "SetFractionUnitArea", N(unit).v)
        if target is not None:
            self.m(target, "AttachFluxIn", f)
        if cls == "FluxToOutlet":
            self.m(self.basin, "AttachOutletFlux", f)
        return f
