"""C13: rates are limited before they are applied so that a store stays between zero and its capacity.

The limiting code is evaluated on stores built by their own constructors, with unknown
contents, rates, inputs, capacity and time step, and the content the limited rates would
lead to is compared with the bounded content in every region."""
from .. import vals as V
from ..vals import mk, num
from ..scene import *
from ..bench import Bench, Missing
from ..mini import Line, SOLVERS
from ..ir import Broken, walk, strip_ty

BR = {"water": ("Storage", "GetWaterContainer"), "snow": ("Snowpack", "GetSnowContainer"), "ice": ("Glacier", "GetIceContainer"),
      "water of a snowpack": ("Snowpack", "GetWaterContainer"), "water of a glacier": ("Glacier", "GetWaterContainer")}
CT = {"snow": "ContentType::Snow", "ice": "ContentType::Ice"}


class Case:
    """a store with processes and inputs of unknown rates"""

    def __init__(self, ctx, kind, outs=(1,), dyn=0, static=(), capacity=False, overflow=False, infinite=False, negative=False, negrate=False, dt=1, fixed=False):
        b = self.b = Bench(ctx)
        cls, get = BR[kind]
        self.brick = b.new(cls)
        self.w = b.m(self.brick, get)
        if b.exact.get(self.w) is None:
            raise V.Unknown("store")
        self.c, self.dt = nm("content"), N(dt)
        b.m(self.w, "UpdateContent", self.c.v)
        if infinite:
            b.m(self.w, "SetAsInfiniteStorage")
        if negative:
            b.m(self.w, "SetAllowNegativeContent", V.TRUE)
        self.outs, self.ins, self.facts = [], [], [self.c > Fr(1, 10)]
        # another store of the brick, whose rates must be left alone
        n = 0
        for k in outs:
            p, fl = b.process(self.brick, self.w, k)
            for j in range(k):
                v = N((3, 1, 2)[n]) if fixed else nm("out%d" % n)
                a, l = b.cell(v.v)
                b.m(p, "StoreInOutgoingFlux", a, num(j))
                self.outs.append((v, l))
                self.facts += [] if fixed else [v < 1000] if negrate else [v > Fr(1, 1000), v < 1000]
                n += 1
        for i in range(dyn):
            f = b.new("FluxToBrick", self.brick)
            b.m(self.w, "AttachFluxIn", f)
            v = N((5, 4)[i]) if fixed else nm("in%d" % i)
            a, l = b.cell(v.v)
            b.m(f, "LinkChangeRate", a)
            self.ins.append((v, l))
            self.facts += [] if fixed else [v > Fr(1, 1000), v < 1000]
        self.static = N(0)
        for i, s in enumerate(static):
            v = nm("static%d" % i)
            self.facts.append(v > Fr(1, 1000))
            self.static = self.static + v
            if s == "forcing":
                f = b.new("FluxForcing")
                b.m(f, "AttachForcing", V.obj("forcing", "VariableType::Precipitation"))
                b.names["Precipitation"] = v.v
                b.user["call"] = self.forcing(v)
            elif s == "instantaneous":
                t = b.new("Storage")
                f = b.new("FluxToBrickInstantaneous", t)
                b.m(f, "UpdateFlux", v.v)
            else:
                f = b.new("FluxToBrick", self.brick)
                b.m(f, "SetAsStatic")
                b.m(f, "UpdateFlux", v.v)
            b.m(self.w, "AttachFluxIn", f)
        self.over = None
        self.cap = None
        if capacity:
            self.cap = nm("capacity")
            a, l = b.cell(self.cap.v)
            b.m(self.w, "SetMaximumCapacity", a)
            self.facts += [self.cap > 1, self.c < self.cap]
        if overflow:
            p, fl = b.process(self.brick, self.w, 1, "ProcessOutflowOverflow")
            a, l = b.cell(num(0))
            b.m(p, "StoreInOutgoingFlux", a, num(0))
            b.m(self.w, "LinkOverflow", p)
            self.over = l
        # rates of an unrelated store of another brick
        n0 = len(b.throws)
        b.m(self.brick, "ApplyConstraints", self.dt.v)
        self.threw = b.throws[n0:]
        self.where = b.at(self.w, "ApplyConstraints", 1)

    def forcing(self, v):
        def call(ev, e, n, recv, args, tgt):
            if n == "Forcing::GetValue":
                return v.v
            return None
        return call

    def rate(self, l):
        return Name(self.b.get(l))

    def final(self):
        s = self.c + self.static
        for v, l in self.ins:
            s = s + self.rate(l) * self.dt
        for v, l in self.outs:
            s = s - self.rate(l) * self.dt
        if self.over is not None:
            s = s - self.rate(self.over) * self.dt
        return s

    def raw(self):
        s = self.c + self.static
        for v, l in self.ins:
            s = s + v * self.dt
        for v, l in self.outs:
            s = s - v * self.dt
        return s

    def go(self):
        return self.facts + [self.b.st.pc]


from fractions import Fraction as Fr


def under(pc, v, other):
    return Name(V.ite(pc, N(v).v, N(other).v))


def limit(ctx, kind, outs, dyn, static, cap, over, dt=1, fixed=False):
    c = Case(ctx, kind, outs, dyn, static, cap, over, dt=dt, fixed=fixed)
    pc = c.b.st.pc
    txt = "%s with %s outputs, %d dynamic inputs, %s inputs%s%s" % (kind, "+".join(map(str, outs)) or "no", dyn, "/".join(static) or "no direct", ", capacity" if cap else "", ", overflow" if over else "") + ("" if dt == 1 else ", time step %s d" % dt) + (" of given rates" if fixed else "")
    key = txt
    want = mx(c.raw(), 0)
    if cap:
        want = mn(want, c.cap)
        if not over and static:
            # only the regions where the direct inputs alone fit
            c.facts.append(c.c + c.static < c.cap)
    apply_judge(ctx, "bounded", key, c.where, under(pc, c.final(), want).v, want.v, c.facts, "content after the step, " + txt + ":")
    for i, (v, l) in enumerate(c.outs):
        r = c.rate(l)
        apply_judge(ctx, "withdrawals shrink", key + " out%d" % i, c.where, under(pc, mx(r - v, 0) + mx(N(0) - r, 0), 0).v, num(0), c.facts, "excess of the limited withdrawal over the request, " + txt + ":")
    for i, (v, l) in enumerate(c.ins):
        r = c.rate(l)
        apply_judge(ctx, "inputs shrink", key + " in%d" % i, c.where, under(pc, mx(r - v, 0) + mx(N(0) - r, 0), 0).v, num(0), c.facts, "excess of the limited input over the request, " + txt + ":")
        if over or not cap:
            apply_judge(ctx, "inputs kept", key + " in%d" % i, c.where, under(pc, r, v).v, v.v, c.facts, "input rate, " + txt + ":")
    # nothing is refused when the requests are acceptable
    ok = c.facts if not (cap and not over and static) else c.facts
    apply_judge(ctx, "no refusal", key, c.where, V.ite(pc, num(1), num(0)), num(1), ok, "accepting (1) or refusing (0), " + txt + ":")


def free(ctx, kind, infinite):
    c = Case(ctx, kind, (1, 1), 1, (), infinite=infinite, negative=not infinite)
    for i, (v, l) in enumerate(c.outs + c.ins):
        apply_judge(ctx, "unlimited stores", "%s %d %s" % (kind, i, infinite), c.where, under(c.b.st.pc, c.rate(l), v).v, v.v, c.facts,
                    "rate %d of a store %s:" % (i, "without limit" if infinite else "allowed to become negative"))


def negative(ctx, kind):
    c = Case(ctx, kind, (1,), 0, (), negrate=True)
    v, l = c.outs[0]
    f = [c.c > 1, v < 0]
    apply_judge(ctx, "no negative rate", kind, c.where, under(c.b.st.pc, c.rate(l), 0).v, num(0), f, "limited rate of a negative request:")


def refused(ctx, kind):
    """direct inputs that alone exceed the capacity, without overflow: refused, not applied"""
    c = Case(ctx, kind, (1,), 0, ("static",), capacity=True)
    f = [x for x in c.facts] + [c.c + c.static > c.cap + 2000 * c.dt]
    apply_judge(ctx, "refusal of excess", kind, c.where, V.ite(c.b.st.pc, num(1), num(0)), num(0), f, "accepting (1) or refusing (0) direct inputs beyond the capacity without overflow:")


def final_state(ctx, rule, key, where, L, want, out, facts, txt):
    for i, w in enumerate(want):
        apply_judge(ctx, rule, key + " %d" % i, where, L.content(L.st_[i]).v, N(w).v, facts, "content of store %d after the step, %s:" % (i + 1, txt))
    apply_judge(ctx, rule, key + " outlet", where, L.discharge().v, N(out).v, facts, "outlet after the step, %s:" % txt)


def solver_limits(ctx, cls, dt):
    """whole steps of a solver in which a store would be emptied or filled: the limited rates are the ones applied.
    The rates are given numbers, different at each evaluation; the contents are unknown within a range."""
    w = SOLVERS[cls][1] if cls in SOLVERS else None
    nums = {"r": (400, 410, 430, 460), "s": (405, 416, 439, 471), "few": (Fr(1, 2), Fr(1, 3), Fr(1, 4), Fr(2, 3)), "some": (Fr(3, 5), Fr(1, 5), Fr(3, 4), Fr(1, 8)), "much": (1000, 1010, 1040, 1080), "less": (700, 707, 713, 731)}
    S = lambda p: (lambda k: N(nums[p][k % 4]))
    h = N(dt)

    def avg(p):
        return sum((S(p)(k) * w[k] for k in range(len(w))), N(0)) * h
    a, b, c = nm("a"), nm("b"), nm("c")
    tag = "%s, step %s d" % (cls, dt)
    where = None

    def case(key, txt, contents, rates, facts, want, out, **kw):
        L = Line(ctx, cls, contents, [S(r) for r in rates], dt=dt, facts=facts, **kw)
        L.solve()
        final_state(ctx, "solver limits", "%s %s %s" % (cls, key, dt), L.at(L.solver, "Solve", 1), L, want, out, facts, tag + ", " + txt)

    def go(*x, **kw):
        ctx.each("solver limits", cls, lambda: case(*x, **kw))
    go("overdrawn", "overdrawn upstream store", [a, b], ["r", "few"], [a > 1, a < 2, b > 1000], [N(0), b + a - avg("few")], avg("few"))
    go("downstream", "overdrawn downstream store", [a, b], ["few", "r"], [a > 1000, b > 1, b < 2], [a - avg("few"), N(0)], b + avg("few"))
    go("both", "both stores overdrawn", [a, b], ["r", "s"], [a > 1, a < 2, b > 1, b < 2], [N(0), N(0)], a + b)
    go("full", "full downstream store", [a, b], ["r", "few"], [a > 10000, b > 5, b < 10], [a + b - 11 - avg("few"), N(11)], avg("few"), caps=[None, N(11)])
    # a change of the last store must reach the store before the one already treated: one sweep is not enough
    go("both full", "two full stores in line", [a, b, c], ["much", "r", "few"], [a > 10000, b > 5, b < 10, c > 5, c < 10],
       [a + b - 11 + c - 12 - avg("few"), N(11), N(12)], avg("few"), caps=[None, N(11), N(12)])
    go("overflow", "full downstream store with an overflow", [a, b], ["less", "few"], [a > 10000, b > 5, b < 10], [a - avg("less"), N(11)], b + avg("less") - 11, caps=[None, N(11)], over=(1,))


def direct_limits(ctx, dt):
    """bricks solved directly: each process takes what the processes before it have left"""
    from ..mini import Mini
    h = N(dt)
    for regime, lo, hi in (("first", 400, 500), ("regular", Fr(1, 10), 1)):
        a, b = nm("a"), nm("b")
        r0, r1 = nm("r"), nm("s")
        f = [r0 > N(lo), r0 < N(hi), r1 > 4000, r1 < 5000] + ([a > Fr(1, 10), a < 2] if regime == "first" else [a > 50, a < 100]) + [b > 1000]
        L = Mini(ctx)
        L.assume(*f)
        u = L.add_unit()
        A = L.add_brick(u, "GenericLandCover", "A", a)
        B = L.add_brick(L.basin, "Storage", "B", b)
        f0, f1 = L.flux_to(B), L.flux_to(B)
        L.process_to(A, [r0], [f0])
        L.process_to(A, [r1], [f1])
        L.process_to(B, [N(0)], [L.outlet()])
        L.connect()
        for f_ in ctx.prog.cls["Processor"]["fields"]:       # the arrays that Initialize() sizes
            if strip_ty(f_["ty"]) == "Eigen::Array<double, -1, 1>":
                L.store(mk("loc", "f", L.proc, f_["q"]), mk("vec", *[num(0)] * 4))
        where = L.at(L.proc, "ApplyDirectChanges")
        pos, l = L.cell(num(0))
        fn = L.fn("Processor", "ApplyDirectChanges")
        L.frames[-1].env["cell"] = l
        L.inline(fn, L.proc, [A, pos if "*" in fn["params"][1]["ty"] else l if "&" in fn["params"][1]["ty"] else num(0), num(Fr(dt))])
        t = "direct changes, %s regime, step %s d" % (regime, dt)
        apply_judge(ctx, "direct limits", t + " A", where, L.content(A).v, num(0), f, "content left, %s:" % t)
        first = a if regime == "first" else r0 * h
        apply_judge(ctx, "direct limits", t + " f0", where, L.m(f0, "GetAmount"), first.v, f, "amount moved by the first process, %s:" % t)
        apply_judge(ctx, "direct limits", t + " f1", where, L.m(f1, "GetAmount"), (a - first).v, f, "amount moved by the second process, %s:" % t)


def run(ctx):
    ctx.rule("solver limits", "in a whole step that would empty or fill stores, what is applied are the limited rates, and what one store keeps back the other does not receive")
    ctx.rule("assembled", "in an assembled model a limited store with an overflow ends a step within its limits and delivers no more than it had, wherever its inflow comes from")
    ctx.rule("direct limits", "directly solved bricks apply the limited rates, process by process")
    ctx.rule("bounded", "content + direct inputs + dt (limited inputs - limited outputs) = the unlimited content cut to [0, capacity]")
    ctx.rule("withdrawals shrink", "0 <= limited withdrawal <= requested withdrawal")
    ctx.rule("inputs shrink", "0 <= limited input <= requested input")
    ctx.rule("inputs kept", "without capacity, or with an overflow, the inputs are not changed")
    ctx.rule("unlimited stores", "rates of infinite stores and of stores allowed to become negative are unchanged")
    ctx.rule("no negative rate", "a negative withdrawal is set to zero")
    ctx.rule("no refusal", "acceptable requests are not refused")
    ctx.rule("refusal of excess", "direct inputs beyond the capacity of a store without overflow are refused")
    for kind in BR:
        ctx.each("bounded", kind, limit, ctx, kind, (1,), 0, (), False, False)
        ctx.each("bounded", kind, limit, ctx, kind, (1, 1), 0, (), False, False)
        ctx.each("bounded", kind, limit, ctx, kind, (1,), 1, (), False, False)
        ctx.each("bounded", kind, limit, ctx, kind, (1,), 0, ("static",), False, False)
        ctx.each("unlimited stores", kind, free, ctx, kind, True)
        ctx.each("unlimited stores", kind, free, ctx, kind, False)
        ctx.each("no negative rate", kind, negative, ctx, kind)
    k = "water"
    for outs, dyn, static, cap, over in [((2,), 0, (), 0, 0), ((1,), 0, ("forcing",), 0, 0), ((1,), 0, ("instantaneous",), 0, 0),
                                         ((1,), 1, ("static", "forcing"), 0, 0), ((1,), 1, ("instantaneous",), 0, 0),
                                         ((), 1, (), 1, 1), ((1,), 1, (), 1, 1), ((1,), 0, ("forcing",), 1, 1), ((1,), 1, ("static",), 1, 1), ((1,), 0, ("instantaneous",), 1, 1),
                                         ((), 1, (), 1, 0), ((1,), 1, ("static",), 1, 0)]:
        ctx.each("bounded", k, limit, ctx, k, outs, dyn, static, bool(cap), bool(over))
    for dt in (Fr(1), Fr(1, 24), Fr(7)):
        for outs, dyn, static, cap, over in [((2, 1), 0, (), 0, 0), ((1,), 2, (), 0, 0), ((1, 1), 1, (), 0, 0), ((1, 1), 1, (), 1, 1), ((2, 1), 2, ("static",), 1, 1), ((1,), 1, (), 1, 0), ((1, 1), 2, (), 1, 0), ((1,), 1, ("static",), 1, 0),
                                             ((1, 1), 1, ("forcing", "static", "instantaneous"), 0, 0)]:
            ctx.each("bounded", k, limit, ctx, k, outs, dyn, static, bool(cap), bool(over), dt, True)
    for dt in (Fr(1, 24), Fr(7)) if ctx.tier != "thorough" else (Fr(1, 24), Fr(1, 2), Fr(7), Fr(30)):
        for outs, dyn, static, cap, over in [((1, 1), 0, (), 0, 0), ((1,), 0, ("forcing",), 0, 0), ((1,), 1, (), 1, 1), ((1,), 0, ("instantaneous",), 0, 0)]:
            ctx.each("bounded", k, limit, ctx, k, outs, dyn, static, bool(cap), bool(over), dt)
    ctx.each("refusal of excess", k, refused, ctx, k)
    from .. import chains
    for c in chains.CHAINS:
        for sv in ("euler_explicit", "heun_explicit", "rk4", "analytic_linear", "crank_nicolson", "implicit_euler", "exponential_euler") if ctx.tier != "quick" else ("euler_explicit", "rk4", "analytic_linear"):
            ctx.each("assembled", c, chains.limits, ctx, c, sv)
    p = ctx.prog
    for cls in [x for x in SOLVERS if x in p.cls]:
        for dt in (Fr(1), Fr(1, 24)) + ((Fr(1, 2), Fr(7)) if ctx.tier == "thorough" else ()):
            solver_limits(ctx, cls, dt)
    for dt in (Fr(1), Fr(1, 24)):
        ctx.each("direct limits", "Processor", direct_limits, ctx, dt)
