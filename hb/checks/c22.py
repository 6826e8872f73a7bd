"""C22: composite stores treat all of their contents in every operation.

Every brick class is constructed, every operation on its stores is evaluated with unknown
contents, and what it did to each of the stores is compared with what it has to do."""
from .. import vals as V
from ..vals import mk, num
from ..scene import *
from ..bench import Missing
from ..stores import Unit, brick_classes, TYPES
from ..ir import Broken


def where(ctx, u, name, n=None):
    return u.at(u.brick, name, n)


def vals_of(u, base):
    return {t: nm("%s_%s" % (base, t)) for t in u.types}


def judge_all(ctx, u, rule, key, w, got, want, what, facts=()):
    for t in u.types:
        apply_judge(ctx, rule, "%s %s %s" % (u.cls, key, t), w, got(t), want[t].v, facts, "%s of the %s of a %s:" % (what, t, u.cls))


def getput(ctx, cls):
    u = Unit(ctx, cls)
    for t in u.types:
        u = Unit(ctx, cls)
        a = vals_of(u, "a")
        for s in u.types:
            u.put(s, a[s])
        x = nm("x")
        u.m(u.brick, "UpdateContent", x.v, u.enum(t))
        want = dict(a)
        want[t] = x
        judge_all(ctx, u, "update", "UpdateContent(%s)" % t, where(ctx, u, "UpdateContent"), u.content, want, "content, after setting the %s," % t)
        for s in u.types:
            apply_judge(ctx, "report", "%s GetContent %s" % (cls, s), where(ctx, u, "GetContent"), u.m(u.brick, "GetContent", u.enum(s)), want[s].v, (), "reported %s content of a %s:" % (s, cls))
    u = Unit(ctx, cls)
    for t, g, e in TYPES:
        if t not in u.types:
            for name, args in (("UpdateContent", (num(1), mk("enum", e))), ("SetInitialState", (num(1), mk("enum", e))), ("GetContent", (mk("enum", e),))):
                u = Unit(ctx, cls)
                n0 = len(u.throws)
                u.m(u.brick, name, *args)
                ctx.check(True if u.st.pc is V.FALSE else (False if u.st.pc is V.TRUE and len(u.throws) == n0 else None), "refuse", "%s %s %s" % (cls, name, t), where(ctx, u, name), "%s of the missing %s content of a %s is not refused" % (name, t, cls))


def initial(ctx, cls):
    u = Unit(ctx, cls)
    i, a = vals_of(u, "i"), vals_of(u, "a")
    for t in u.types:
        u.m(u.brick, "SetInitialState", i[t].v, u.enum(t))
        u.put(t, a[t])
        u.m(u.stores[t], "AddAmountToDynamicContentChange", nm("d").v)
        u.m(u.stores[t], "AddAmountToStaticContentChange", nm("s").v)
    u.m(u.brick, "Reset")
    judge_all(ctx, u, "reset", "Reset", where(ctx, u, "Reset", 0), u.content, i, "content after a reset")
    judge_all(ctx, u, "reset", "Reset pending", where(ctx, u, "Reset", 0), u.pending, i, "content with pending changes after a reset")


def save(ctx, cls):
    u = Unit(ctx, cls)
    a, b = vals_of(u, "a"), vals_of(u, "b")
    for t in u.types:
        u.put(t, a[t])
    u.m(u.brick, "SaveAsInitialState")
    w = where(ctx, u, "SaveAsInitialState", 0)
    judge_all(ctx, u, "save", "Save keeps", w, u.pending, a, "content after saving")
    for t in u.types:
        u.put(t, b[t])
    u.m(u.brick, "Reset")
    judge_all(ctx, u, "save", "Save+Reset", w, u.content, a, "content after saving and resetting")


def inputs(ctx, cls):
    u = Unit(ctx, cls)
    a, v, q = vals_of(u, "a"), vals_of(u, "v"), vals_of(u, "q")
    fluxes = {}
    for t in u.types:
        u.put(t, a[t])
        for k, val in (("1", v), ("2", q)):
            f = u.new("FluxToBrick", u.brick)
            u.m(f, "SetType", u.enum(t))
            u.m(u.brick, "AttachFluxIn", f)
            u.m(f, "UpdateFlux", val[t].v)
    u.m(u.brick, "UpdateContentFromInputs")
    w = where(ctx, u, "UpdateContentFromInputs", 0)
    want = {t: a[t] + v[t] + q[t] for t in u.types}
    judge_all(ctx, u, "inputs", "inputs", w, u.pending, want, "content with pending changes after taking in the inputs")
    for t in u.types:
        apply_judge(ctx, "inputs", "%s committed %s" % (cls, t), w, u.content(t), a[t].v, (), "committed content after taking in the inputs, %s of a %s:" % (t, cls))
    u.m(u.brick, "Finalize")
    facts = [x for t in u.types for x in (a[t] >= 0, v[t] > 1, q[t] > 0, want[t] > 1)]
    w = where(ctx, u, "Finalize", 0)
    judge_all(ctx, u, "close", "Finalize", w, u.content, want, "content after closing the step", facts)
    judge_all(ctx, u, "close", "Finalize pending", w, u.pending, want, "content with pending changes after closing the step", facts)


def commit(ctx, cls):
    """closing commits whatever is pending, also in stores that were empty"""
    for empty in (True, False):
        u = Unit(ctx, cls)
        want, facts = {}, []
        for t in u.types:
            a, d, s = nm("a_" + t), nm("d_" + t), nm("s_" + t)
            u.put(t, 0 if empty else a)
            u.m(u.stores[t], "AddAmountToDynamicContentChange", d.v)
            u.m(u.stores[t], "AddAmountToStaticContentChange", s.v)
            want[t] = (N(0) if empty else a) + d + s
            facts += [a >= 0, want[t] > 1]
        u.m(u.brick, "Finalize")
        w = where(ctx, u, "Finalize", 0)
        judge_all(ctx, u, "close", "Finalize%s" % (" empty" if empty else " pending"), w, u.content, want, "content after closing the step", facts)


def instantaneous(ctx, cls):
    """deposits that are made at once"""
    for t in ("water", "snow"):
        u = Unit(ctx, cls)
        if t not in u.types:
            continue
        a = vals_of(u, "a")
        for s in u.types:
            u.put(s, a[s])
        f = u.new("FluxToBrickInstantaneous", u.brick)
        u.m(f, "SetType", u.enum(t))
        u.m(u.brick, "AttachFluxIn", f)
        u.m(f, "UpdateFlux", nm("v").v)
        want = dict(a)
        want[t] = a[t] + nm("v")
        w = ctx.at(u.fn("FluxToBrickInstantaneous", "UpdateFlux"))
        judge_all(ctx, u, "inputs", "instantaneous %s" % t, w, u.pending, want, "content with pending changes after an instantaneous %s deposit" % t)
        u.m(u.brick, "UpdateContentFromInputs")
        judge_all(ctx, u, "inputs", "instantaneous %s once" % t, w, u.pending, want, "content with pending changes after an instantaneous %s deposit and taking in the inputs" % t)
        u.m(u.brick, "Finalize")
        facts = [x for s in u.types for x in (a[s] > 1 if s != t else a[s] >= 0, nm("v") > 1, want[s] > 1)]
        judge_all(ctx, u, "close", "Finalize instantaneous %s" % t, where(ctx, u, "Finalize", 0), u.content, want, "content after an instantaneous %s deposit and closing the step" % t, facts)


def pointers(ctx, cls):
    """the solver's handles move each store by exactly what is written through them"""
    u = Unit(ctx, cls)
    a = vals_of(u, "a")
    for t in u.types:
        u.put(t, a[t])
    w = where(ctx, u, "GetDynamicContentChanges", 0)
    vec = u.m(u.brick, "GetDynamicContentChanges")
    if vec.k != "vec" or any(x.k != "addr" for x in vec.a):
        ctx.und("handles", w, "not resolved")
        return
    ctx.check(len(vec.a) == len(u.types), "handles", cls + " count", w, "a %s has %d stores but hands out %d handles" % (cls, len(u.types), len(vec.a)))
    tot = N(0)
    for i, x in enumerate(vec.a):
        d = nm("d%d" % i)
        u.store(x.a[0], d.v)
        tot = tot + d
    got = N(0)
    for t in u.types:
        got = got + Name(u.pending(t)) - a[t]
    apply_judge(ctx, "handles", cls + " sum", w, got.v, tot.v, (), "change of all stores of a %s through the handles:" % cls)
    for t in u.types:
        ds = [nm("d%d" % i) for i in range(len(vec.a))]
        ch = Name(u.pending(t)) - a[t]
        js = [judge(ch.v, d.v)[0] for d in ds]
        ctx.check(True if "held" in js else (False if all(j == "violated" for j in js) else None), "handles", "%s %s" % (cls, t), w, "the handles of a %s do not move its %s store" % (cls, t))


def values(ctx, cls):
    for t in Unit(ctx, cls).types:
        for nme in (t, t + "_content"):
            u = Unit(ctx, cls)
            a = vals_of(u, "a")
            for s in u.types:
                u.put(s, a[s])
            got = []
            for g in ("GetBaseValuePointer", "GetValuePointer"):
                p = u.m(u.brick, g, V.string(nme))
                if p.k == "addr":
                    got.append((g, u.load(p.a[0], "double")))
                elif p.k != "null":
                    got.append((g, None))
            w = where(ctx, u, "GetValuePointer", 1)
            if any(v is None for g, v in got):
                ctx.und("handed out", w, "value '%s'" % nme)
                continue
            ctx.check(bool(got), "handed out", "%s %s" % (cls, nme), w, "a %s does not report '%s'" % (cls, nme))
            for g, v in got:
                apply_judge(ctx, "handed out", "%s %s %s" % (cls, nme, g), w, v, a[t].v, (), "value '%s' of a %s:" % (nme, cls))
    u = Unit(ctx, cls)
    ids = [w.id for w in u.stores.values()]
    ctx.check(len(set(ids)) == len(ids), "handed out", cls + " distinct", where(ctx, u, "GetWaterContainer"), "a %s hands out the same store twice" % cls)


def run(ctx):
    ctx.rule("update", "setting the content of one kind changes that store only")
    ctx.rule("report", "the content reported for a kind is that of its store")
    ctx.rule("refuse", "kinds of content a brick does not hold are refused")
    ctx.rule("reset", "a reset gives every store its initial state and clears its pending changes")
    ctx.rule("save", "saving keeps the contents and makes a later reset return them")
    ctx.rule("inputs", "every store takes in the sum of its own inputs, once")
    ctx.rule("close", "closing a step commits the pending changes of every store")
    ctx.rule("handles", "the solver's handles reach every store")
    ctx.rule("handed out", "the store and the value handed out are those asked for")
    for cls in brick_classes(ctx.prog):
        for f in (getput, initial, save, inputs, commit, instantaneous, pointers, values):
            ctx.each("stores", cls, f, ctx, cls)
