"""C14: solver steps use the right stage states and apply one change.

The real solvers and the real processor are evaluated on a chain of two stores whose process
rates are unknown; the states at which the rates are evaluated and the contents after one and
two steps are compared with the method's tableau."""
from .. import vals as V
from ..vals import mk, num
from ..scene import *
from ..mini import Mini, Chain, SOLVERS, Q
from ..ir import Broken

ASSUMPTIONS = ["The bisection of the implicit solvers is not resolved: for them the restoration of the state, the single application and the balance of the returned rates are judged, not the accuracy of the root."]


def explicit(ctx, cls, na, nb, dt):
    c = Chain(ctx, cls, na=na, nb=nb, dt=dt)
    where = c.at(c.solver, "Solve", 1)
    stages, w = SOLVERS[cls]
    tag = "%s (%d and %d outputs, step %s d)" % (cls, na, nb, dt)
    sa, sb = c.a0, c.b0
    for step in (0, 1):
        n0 = len(c.seen)
        ret = c.solve()
        calls = c.seen[n0:]
        base = step * len(stages)
        ctx.check(len(calls) == 2 * len(stages), "stages", tag + " count", where, "%s: %d rate evaluations of two processes in a step, the method has %d stages" % (tag, len(calls), len(stages)))
        K = lambda p, k: sum((c.rt(p, base + k, i) for i in range(na if p == "r" else nb)), N(0))
        for k, stg in enumerate(stages):
            da = db = N(0)
            if stg:
                j, f = stg
                da = (N(0) - K("r", j)) * dt * f
                db = (K("r", j) - K("s", j)) * dt * f
            for which, want in (("A", sa + da), ("B", sb + db)):
                got = [v for x, v in calls[2 * k:2 * k + 2] if x == which]
                if len(got) != 1:
                    ctx.check(None if len(calls) != 2 * len(stages) else False, "stages", "%s stage %d %s" % (tag, k, which), where, "%s: stage %d does not evaluate store %s once" % (tag, k + 1, which))
                    continue
                apply_judge(ctx, "stages", "%s step %d stage %d %s" % (cls, step, k, which), where, got[0].v, want.v, c.facts, "%s: content of store %s at stage %d of step %d:" % (tag, which, k + 1, step + 1))
        ra = sum((K("r", k) * w[k] for k in range(len(w))), N(0))
        rb = sum((K("s", k) * w[k] for k in range(len(w))), N(0))
        sa, sb = sa - ra * dt, sb + (ra - rb) * dt
        apply_judge(ctx, "one change", "%s step %d A" % (cls, step), where, c.content(c.A).v, sa.v, c.facts, "%s: content of the first store after step %d:" % (tag, step + 1))
        apply_judge(ctx, "one change", "%s step %d B" % (cls, step), where, c.content(c.B).v, sb.v, c.facts, "%s: content of the second store after step %d:" % (tag, step + 1))
        for br, want, t in ((c.A, sa, "first"), (c.B, sb, "second")):
            apply_judge(ctx, "closed", "%s step %d %s" % (cls, step, t), where, c.m(c.water(br), "GetContentWithChanges"), want.v, c.facts, "%s: content with pending changes of the %s store after step %d:" % (tag, t, step + 1))
        apply_judge(ctx, "one change", "%s step %d outlet" % (cls, step), where, c.discharge().v, (rb * dt).v, c.facts, "%s: outlet after step %d:" % (tag, step + 1))
        if ret.k in ("ite",) or ret in (V.TRUE, V.FALSE):
            ctx.check(ret is V.TRUE or None if ret is not V.FALSE else False, "success", "%s" % cls, where, "%s reports failure for a correct step" % cls)
        if not feasible_pc(c):
            ctx.bad("success", cls + " throws", where, "%s throws on a regular step" % tag)


def starved(ctx, cls):
    """stage rates are limited before they are applied: no stage sees less than nothing in a store"""
    nst = len(SOLVERS[cls][0])
    for which in ("A", "B"):
        for k in range(nst):
            c = Chain(ctx, cls, facts=[nm("a") > 5, nm("a") < 6, nm("b") > 5, nm("b") < 6])
            big = c.pa if which == "A" else c.pb
            for p in (c.pa, c.pb):
                c.rates[p] = (lambda j, p=p: [N(60 if p is big and j == k else Q(1, 4))])
            where = c.at(c.solver, "Solve", 1)
            n0 = len(c.seen)
            c.solve()
            tag = "%s (rate of store %s above its content at stage %d)" % (cls, which, k + 1)
            for j, (x, v) in enumerate(c.seen[n0:]):
                apply_judge(ctx, "limited stages", "%s %s %d %d" % (cls, which, k, j), where, mn(v, 0).v, num(0), c.facts, "%s: water missing in store %s at stage %d:" % (tag, x, j // 2 + 1))


def feasible_pc(c):
    return c.st.pc is not V.FALSE


def sequential(ctx, cls, dt):
    """the shared step of the sequential solvers: whatever rates a brick computation returns are applied once"""
    st = {"n": 0}
    c = None

    def call(ev, e, n, recv, args, tgt):
        if n.endswith("::ComputeBrickRates") and c is not None:
            br, content, inflow, h, i0 = args[:5]
            st.setdefault("args", []).append((br, Name(content), Name(inflow), Name(h), i0))
            loc = mk("loc", "f", recv, "SolverSequential::_rates")
            v = ev.load(loc, "obj")
            i = int(V.p_constval(i0.a[0]))
            if v.k != "vec":
                raise V.Unknown("rates of the sequential solver")
            k = st["n"] // 2
            xs = list(v.a)
            xs[i] = c.rt("r" if br is c.A else "s", k, 0).v
            ev.st.s[loc] = mk("vec", *xs)
            st["n"] += 1
            return V.VOID
        return None
    c = Chain(ctx, cls, dt=dt, hooks={"call": call})
    where = c.at(c.solver, "Solve", 1)
    sa, sb = c.a0, c.b0
    for step in (0, 1):
        n0 = len(st.get("args", []))
        c.solve()
        got = st.get("args", [])[n0:]
        if len(got) != 2:
            ctx.und("stages", where, "brick computations not recognised")
            return
        r, s = c.rt("r", step, 0), c.rt("s", step, 0)
        tag = "%s (step %s d)" % (cls, dt)
        for (br, content, inflow, h, i0), want, inq, t in ((got[0], sa, N(0), "first"), (got[1], sb, r, "second")):
            apply_judge(ctx, "stages", "%s content %s %d" % (cls, t, step), where, content.v, want.v, c.facts, "%s: content given to the computation of the %s store:" % (tag, t))
            apply_judge(ctx, "stages", "%s inflow %s %d" % (cls, t, step), where, inflow.v, inq.v, c.facts, "%s: inflow rate given to the computation of the %s store:" % (tag, t))
            apply_judge(ctx, "stages", "%s step %s %d" % (cls, t, step), where, h.v, num(Q(dt)), c.facts, "%s: time step given to the computation of the %s store:" % (tag, t))
        sa, sb = sa - r * dt, sb + (r - s) * dt
        for br, want, t in ((c.A, sa, "first"), (c.B, sb, "second")):
            apply_judge(ctx, "one change", "%s %s %d" % (cls, t, step), where, c.content(br).v, want.v, c.facts, "%s: content of the %s store after step %d:" % (tag, t, step + 1))
            apply_judge(ctx, "closed", "%s %s %d" % (cls, t, step), where, c.m(c.water(br), "GetContentWithChanges"), want.v, c.facts, "%s: pending content of the %s store after step %d:" % (tag, t, step + 1))
        apply_judge(ctx, "one change", "%s outlet %d" % (cls, step), where, c.discharge().v, (s * dt).v, c.facts, "%s: outlet after step %d:" % (tag, step + 1))


def single(ctx, cls, law, dt, facts=()):
    """ComputeBrickRates of a sequential solver on a store with one or two processes with rates k_i * content"""
    c = None
    ks = law

    def call(ev, e, n, recv, args, tgt):
        if c is None:
            return None
        if n.endswith("::GetChangeRates") and recv in c.pk:
            return mk("vec", (c.pk[recv] * Name(c.m(c.water(c.A), "GetContentWithChanges"))).v)
        if n.endswith("::HasLinearResponse") and recv in c.pk:
            return V.TRUE
        if n.endswith("::GetLinearResponseRate") and recv in c.pk:
            return c.pk[recv].v
        return None
    m = Mini(ctx, hooks={"call": call})
    c = m
    c.pk = {}
    a, q = nm("a"), nm("q")
    m.assume(a > 0, q > 0, *facts)
    u = m.add_unit()
    m.A = m.add_brick(u, "Storage", "A", a)
    for k in ks:
        p = m.process_to(m.A, [N(0)], [m.outlet()])
        m.pk[p] = N(k)
    m.connect()
    s = m.new(cls)
    m.m(s, "Connect", m.proc)
    m.m(s, "InitializeContainers")
    f = m.fn(cls, "ComputeBrickRates")
    where = ctx.at(f)
    m.inline(f, s, [m.A, a.v, q.v, num(Q(dt)), num(0)])
    v = m.load(mk("loc", "f", s, "SolverSequential::_rates"), "obj")
    apply_judge(ctx, "restored", "%s %s" % (cls, len(ks)), where, m.m(m.water(m.A), "GetContentWithChanges"), a.v, m.facts, "%s: content of the store after the computation of its rates:" % cls)
    if v.k != "vec":
        ctx.und("balance", where, "rates not resolved")
        return
    if cls in ("SolverAnalyticLinear", "SolverExponentialEuler"):
        kt = sum(ks)
        E = exp(N(-Q(kt) * Q(dt)))
        end = a * E + q / kt * (1 - E)
        tot = q - (end - a) / N(dt)
        for i, k in enumerate(ks):
            apply_judge(ctx, "balance", "%s %d/%d" % (cls, i, len(ks)), where, v.a[i], (tot * k / kt).v, list(m.facts) + plain_facts([tot > 0, end > 0, (a + q) > 0]),
                        "%s: rate of process %d of a store of linear response and content a, inflow q:" % (cls, i + 1))


def run(ctx):
    ctx.rule("stages", "each stage evaluates the rates at the state the method prescribes, restored in between")
    ctx.rule("one change", "the contents and the outlet change by the weighted stage rates, once, in this and in the next step")
    ctx.rule("closed", "no pending change remains after the step")
    ctx.rule("limited stages", "stage rates are limited to the water there is before they are applied")
    ctx.rule("success", "a regular step succeeds")
    ctx.rule("restored", "computing the rates of a store leaves its content unchanged")
    ctx.rule("balance", "the rates of a linear store follow from its exact solution over the step")
    p = ctx.prog
    n = 0
    for cls in SOLVERS:
        if cls not in p.cls:
            continue
        n += 1
        for na, nb, dt in [(1, 1, 1), (2, 1, 1), (1, 1, Q(1, 2)), (1, 2, Q(1, 24))] + ([(2, 3, 1), (3, 2, Q(1, 4))] if ctx.tier == "thorough" else []):
            ctx.each("stages", cls, explicit, ctx, cls, na, nb, dt)
        ctx.each("limited stages", cls, starved, ctx, cls)
    if "SolverSequential" in p.cls:
        for cls in sorted(p.subs("SolverSequential")):
            if cls == "SolverSequential":
                continue
            n += 1
            for dt in (1, Q(1, 24)):
                ctx.each("one change", cls, sequential, ctx, cls, dt)
            for ks in ([Q(1, 2)], [Q(1, 2), Q(1, 4)]):
                ctx.each("restored", cls, single, ctx, cls, ks, 1)
    if not n:
        raise Broken("no solver was found")
