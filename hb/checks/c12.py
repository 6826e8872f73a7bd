"""C12: storage bookkeeping conserves water."""
from .. import vals as V
from ..vals import mk, num
from ..scene import *
from ..bench import Bench, Missing
from ..mini import Mini, Step, Line, Q, SOLVERS
from ..stores import Unit, brick_classes
from ..ir import Broken

PREC = Q(1, 10 ** 8)


def ops(ctx, cls, t):
    """the bookkeeping operations of a store"""
    u = Unit(ctx, cls)
    w = u.stores[t]
    c, d, s, e = nm("c"), nm("d"), nm("s"), nm("e")
    u.put(t, c)
    total = c
    for name, sign, x in (("AddAmountToDynamicContentChange", 1, d), ("SubtractAmountFromDynamicContentChange", -1, e), ("AddAmountToStaticContentChange", 1, s), ("AddAmountToDynamicContentChange", 1, e), ("AddAmountToStaticContentChange", 1, d)):
        u.m(w, name, x.v)
        total = total + x * sign
        wh = u.at(w, name)
        apply_judge(ctx, "booked", "%s %s %s" % (cls, t, name), wh, u.pending(t), total.v, (), "content with pending changes of the %s of a %s after %s:" % (t, cls, name))
        apply_judge(ctx, "booked", "%s %s %s committed" % (cls, t, name), wh, u.content(t), c.v, (), "committed content of the %s of a %s after %s:" % (t, cls, name))
    wh = u.at(w, "Finalize", 0)
    u.m(w, "Finalize")
    f = [total > 1]
    apply_judge(ctx, "closed", "%s %s" % (cls, t), wh, u.content(t), total.v, f, "content of the %s of a %s after closing the step:" % (t, cls))
    apply_judge(ctx, "closed", "%s %s pending" % (cls, t), wh, u.pending(t), total.v, f, "content with pending changes of the %s of a %s after closing the step:" % (t, cls))
    u.m(w, "Finalize")
    apply_judge(ctx, "closed", "%s %s twice" % (cls, t), wh, u.content(t), total.v, f, "content of the %s of a %s after closing the step twice:" % (t, cls))
    # only rounding residues are removed
    for neg in (False, True):
        u = Unit(ctx, cls)
        w = u.stores[t]
        u.put(t, c)
        if neg:
            u.m(w, "SetAllowNegativeContent", V.TRUE)
        u.m(w, "AddAmountToDynamicContentChange", d.v)
        u.m(w, "AddAmountToStaticContentChange", s.v)
        u.m(w, "Finalize")
        x = Name(u.content(t))
        tot = c + d + s
        if neg:
            apply_judge(ctx, "residues", "%s %s negative" % (cls, t), wh, x.v, tot.v, (), "content of the %s of a %s allowed to be negative after closing the step:" % (t, cls))
            continue
        apply_judge(ctx, "residues", "%s %s" % (cls, t), wh, x.v, tot.v, [tot > Q(1, 10 ** 6)], "content of the %s of a %s after closing the step:" % (t, cls))
        apply_judge(ctx, "residues", "%s %s zero" % (cls, t), wh, x.v, num(0), [tot < 0], "content of the %s of a %s after closing the step:" % (t, cls))
        apply_judge(ctx, "residues", "%s %s bound" % (cls, t), wh, mx(x - tot - Q(1, 10 ** 6), 0).v, num(0), [tot > 0], "water created by closing the step in the %s of a %s:" % (t, cls))


def infinite(ctx, cls, t):
    u = Unit(ctx, cls)
    w = u.stores[t]
    u.m(w, "SetAsInfiniteStorage")
    u.m(w, "AddAmountToDynamicContentChange", nm("d").v)
    u.m(w, "SubtractAmountFromDynamicContentChange", nm("e").v)
    u.m(w, "Finalize")
    v = u.pending(t)
    ctx.check(True if v is V.nat(("inf",)) else None, "booked", "%s %s infinite" % (cls, t), u.at(w, "Finalize", 0), "content of an infinite store")


def brick(ctx, cls):
    """a brick takes in what its fluxes bring, whatever it held before"""
    for empty in (False, True):
        u = Unit(ctx, cls)
        want, facts = {}, []
        for t in u.types:
            a, x, y = nm("a_" + t), nm("x_" + t), nm("y_" + t)
            u.put(t, 0 if empty else a)
            want[t] = (N(0) if empty else a) + x + y
            facts += [a >= 0, x > 1, y >= 0, want[t] > 1, want[t] + x + y > 1]
            for v in (x, y):
                f = u.new("FluxToBrick", u.brick)
                u.m(f, "SetType", u.enum(t))
                u.m(u.brick, "AttachFluxIn", f)
                u.m(f, "UpdateFlux", v.v)
        for step in (1, 2):
            u.m(u.brick, "UpdateContentFromInputs")
            wh = u.at(u.brick, "UpdateContentFromInputs", 0)
            for t in u.types:
                apply_judge(ctx, "received", "%s %s%s %d" % (cls, t, " empty" if empty else "", step), wh, u.pending(t), want[t].v, facts, "content of the %s of a %s after taking in its inputs:" % (t, cls))
            u.m(u.brick, "Finalize")
            wh = u.at(u.brick, "Finalize", 0)
            for t in u.types:
                apply_judge(ctx, "closed", "%s %s brick%s %d" % (cls, t, " empty" if empty else "", step), wh, u.content(t), want[t].v, facts, "content of the %s of a %s after closing the step:" % (t, cls))
                want[t] = want[t] + nm("x_" + t) + nm("y_" + t)


def change(ctx, cls):
    """a process moves exactly what it takes out of its store"""
    for dt in (1, Q(1, 24)):
        for n, k in ((1, 0), (2, 0), (2, 1), (3, 1)):
            u = Unit(ctx, "Storage")
            p = u.new(cls, u.stores["water"])
            fl = []
            for i in range(n):
                f = u.new("FluxToOutlet")
                u.m(p, "AttachFluxOut", f)
                fl.append(f)
                u.m(f, "UpdateFlux", nm("old%d" % i).v)
            c, r = nm("c"), nm("r")
            u.put("water", c)
            u.m(p, "ApplyChange", num(k), r.v, N(dt).v)
            wh = u.at(p, "ApplyChange", 3)
            left = Name(u.pending("water"))
            got = Name(u.m(fl[k], "GetAmount"))
            f = [r < 5000]
            tag = "%s (output %d of %d, step %s d)" % (cls, k + 1, n, dt)
            apply_judge(ctx, "moved", tag, wh, (left + got).v, c.v, f + [r > 0], "content left plus amount moved by %s:" % tag)
            apply_judge(ctx, "moved", tag + " amount", wh, got.v, (r * dt).v, f + [r > Q(1, 10 ** 4)], "amount moved by %s:" % tag)
            apply_judge(ctx, "moved", tag + " none", wh, got.v, num(0), [r < 0], "amount moved by %s at a negative rate:" % tag)
            apply_judge(ctx, "moved", tag + " none left", wh, left.v, c.v, [r < 0], "content left by %s at a negative rate:" % tag)
            for j in range(n):
                if j != k:
                    apply_judge(ctx, "moved", tag + " other", wh, u.m(fl[j], "GetAmount"), nm("old%d" % j).v, (), "amount of the other output %d of %s:" % (j + 1, tag))


def fluxes(ctx):
    """what a flux reports to its receiver is what it was given, once"""
    for cls, args, get in (("FluxToBrick", 1, "GetAmount"), ("FluxToOutlet", 0, "GetAmount"), ("FluxToAtmosphere", 0, "GetAmount"), ("FluxSimple", 0, "GetAmount"), ("FluxToBrickInstantaneous", 1, "GetRealAmount")):
        b = Bench(ctx)
        t = b.new("Storage")
        f = b.new(cls, *([t] if args else []))
        a, c = nm("a"), nm("b")
        wh = b.at(f, "UpdateFlux")
        w = b.m(t, "GetWaterContainer")
        for x in (a, c):
            b.m(f, "UpdateFlux", x.v)
            apply_judge(ctx, "delivered", cls + " " + str(x is a), wh, b.m(f, get), x.v, (), "amount delivered by a %s:" % cls)
        p = b.m(f, "GetAmountPointer")
        if p.k == "addr":
            apply_judge(ctx, "delivered", cls + " pointer", wh, b.load(p.a[0], "double"), c.v, (), "recorded amount of a %s:" % cls)
        if args:
            b.m(t, "AttachFluxIn", f)
            b.m(w, "AddAmountToDynamicContentChange", b.m(w, "SumIncomingFluxes"))
            apply_judge(ctx, "delivered", cls + " received", wh, b.m(w, "GetContentWithChanges"), (c if cls == "FluxToBrick" else a + c).v, (), "water received through a %s:" % cls)


def whole(ctx, solver, dt):
    """two steps of a unit with direct and solved bricks: nothing is lost or created"""
    rates = {"melt": (3, 5), "hold": (2, 4), "inf": (6, 1), "run": (1, 2), "et": (Q(1, 2), Q(3, 4)), "slow": (2, 3), "base": (1, 7)}
    s = Step(ctx)
    A = lambda n: nm("c_" + n)
    names = ["snow", "swater", "ice", "iwater", "ground", "slow", "base"]
    facts = [A(n) > 1000 for n in names]
    rain, snow = nm("rain"), nm("snow")
    facts += [x for y in (rain, snow) for x in (y > 0, y < 10)]
    s.assume(*facts)
    u = s.add_unit(10)
    g = s.add_brick(u, "GenericLandCover", "ground", A("ground"))
    pk = s.add_brick(u, "Snowpack", "pack", A("swater"))
    s.m(pk, "SetParent", g)
    psnow = s.m(pk, "GetSnowContainer")
    s.m(psnow, "UpdateContent", A("snow").v)
    slow = s.add_brick(u, "Storage", "slow", A("slow"))
    base = s.add_brick(s.basin, "Storage", "base", A("base"))
    fr = s.flux("FluxToBrick", g, static=True)
    fs = s.flux("FluxToBrick", pk, type_="Snow", static=True)
    s.m(fr, "UpdateFlux", rain.v)
    s.m(fs, "UpdateFlux", snow.v)
    K = lambda n: (lambda k: [N(rates[n][k % 2])])
    fmelt = s.flux("FluxToBrickInstantaneous", pk)
    fhold = s.flux("FluxToBrick", g)
    s.process_to(pk, K("melt"), [fmelt], psnow)
    s.process_to(pk, K("hold"), [fhold])
    s.process_to(g, K("inf"), [s.flux("FluxToBrick", slow)])
    s.process_to(g, K("run"), [s.flux("FluxToOutlet")])
    fet = s.flux("FluxToAtmosphere")
    s.process_to(g, K("et"), [fet])
    s.process_to(slow, K("slow"), [s.flux("FluxToBrick", base)])
    s.process_to(base, K("base"), [s.flux("FluxToOutlet")])
    s.solver(solver)
    stores = [psnow, s.water(pk), s.water(g), s.water(slow), s.water(base)]
    tot = A("snow") + A("swater") + A("ground") + A("slow") + A("base")
    where = s.at(s.proc, "ProcessTimeStep", 1)
    for k in (0, 1):
        s.step(dt)
        tot = tot + rain + snow - s.outlet_value() - Name(s.m(fet, "GetAmount"))
        now = N(0)
        for w in stores:
            now = now + Name(s.m(w, "GetContentWithChanges"))
        # water on its way from the pack to the ground, which was computed before
        apply_judge(ctx, "conserved", "%s %s step %d" % (solver, dt, k), where, (now + Name(s.m(fhold, "GetAmount"))).v, tot.v, facts, "water held after step %d (%s, %s d) against initial content + inputs - outputs:" % (k + 1, solver, dt))


def run(ctx):
    ctx.rule("booked", "every booking changes the content with pending changes by its amount, once, with its sign, and leaves the committed content")
    ctx.rule("closed", "closing commits all pending changes and clears them")
    ctx.rule("residues", "closing creates no water beyond removing rounding residues")
    ctx.rule("moved", "what a process takes from its store is what its flux carries")
    ctx.rule("delivered", "a flux delivers the amount it was given, once")
    ctx.rule("conserved", "over whole steps: contents change by inputs minus outputs")
    p = ctx.prog
    for cls in brick_classes(p):
        for t in Unit(ctx, cls).types:
            ctx.each("booked", cls, ops, ctx, cls, t)
            ctx.each("booked", cls, infinite, ctx, cls, t)
    ctx.rule("received", "a brick takes in the sum of what its fluxes bring, whatever it held")
    for cls in brick_classes(p):
        ctx.each("received", cls, brick, ctx, cls)
    n = 0
    for cls in sorted(p.subs("Process")):
        if p.cls[cls].get("abstract"):
            continue
        n += 1
        ctx.each("moved", cls, change, ctx, cls)
    if not n:
        raise Broken("no process was found")
    ctx.each("delivered", "fluxes", fluxes, ctx)
    for sv in [x for x in SOLVERS if x in p.cls]:
        for dt in (1, Q(1, 24)):
            ctx.each("conserved", sv, whole, ctx, sv, dt)
