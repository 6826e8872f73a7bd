"""C07: scheduled actions are applied exactly once, when their date is reached, in date order.

Runs with the work inside a time step left out (as in C04) are evaluated for schedules of
dated land cover changes, added in many orders over one or several actions, and of yearly
actions, for time steps from an hour to many days. Each application is noted together with
the number of steps made before it."""
import datetime
import itertools
from fractions import Fraction
from .. import vals as V
from ..vals import mk, num, nat, TRUE, FALSE
from ..bench import Missing
from ..runs import Trace, same, constant
from ..ir import Broken
from ..structures import Built
from .c04 import Case, DAYS, T0, mjd0

ASSUMPTIONS = ["A run reaches a date when its clock, after a step, is at or past it; dates up to the start are reached by the first step. An item dated after the end of the period may be applied by the last advance of the clock or not at all.",
               "A yearly date is reached at its midnight; one at or before the start of the period may be applied by the first step or not.",
               "The orders of up to four dates over one to three actions stand for all schedules."]

# (steps, unit, number of steps): the clocks
CLOCKS = [(1, "day", 6), (2, "day", 4), (6, "hour", 8)]


def item_dates(n, dt):
    """dates worth trying, in days after the start: before and at the start, on and between
    steps, in the last step"""
    return [Fraction(-3), Fraction(0), dt, dt * Fraction(3, 2), 2 * dt, (n - 1) * dt]


class Sched:
    def __init__(self, ctx, clock, name="gr4j"):
        step, unit, n = clock
        self.ctx = ctx
        self.c = Case(ctx, (name, step, unit, n, 0, False))
        self.b, self.w, self.n, self.dt = self.c.b, self.c.w, n, self.c.dt
        self.title = "%d steps of %d %s" % (n, step, unit)
        self.at = self.w.at(self.b.actions, "DateUpdate")
        self.unit = self.b.units()[0]
        self.area = constant(self.w.m(self.unit, "GetArea"))

    def add(self, groups):
        """groups: per action the dates (days after the start) in the order they are added; the
        items in the same order, each with its own area"""
        w, b = self.w, self.b
        items = []
        for g in groups:
            a = w.new("ActionLandCoverChange")
            for d in g:
                w.m(a, "AddChange", num(self.c.start + d), num(b.uid(self.unit)), V.string("open"), num(len(items) + 1))
                items.append(d)
            r = w.m(b.model, "AddAction", a)
            if r is not TRUE:
                raise Broken("an action is refused in the analysis: %s" % V.show(r)[:200])
        return items

    def due(self, d):
        """the number of steps after which the date is reached"""
        k = max(1, -((-d) // self.dt))
        return int(k)


def which(s, e):
    """the item a change belongs to"""
    f = constant(e[3])
    return None if f is None else int(f * s.area) - 1 if (f * s.area).denominator == 1 else None


def dated(ctx, s, groups, again=False):
    s.b.back(s.c.s0)
    items = s.add(groups)
    t = Trace(s.b).run()
    verdict(ctx, s, groups, items, t, "")
    if again:
        s.w.m(s.b.model, "Reset")
        verdict(ctx, s, groups, items, Trace(s.b).run(), " in a second run")


def verdict(ctx, s, groups, items, t, extra):
    at = s.at
    what = "%s, items added on %s%s" % (s.title, " and ".join("days " + ", ".join(str(float(d)) for d in g) for g in groups), extra)
    if not s.b.clean or len(t.steps) != s.n:
        ctx.und("dated", at, "%s: the run was not followed" % what)
        return
    ev = [(which(s, e), e[4]) for e in t.events if e[0] == "change"]
    if any(i is None or not 0 <= i < len(items) for i, k in ev):
        ctx.und("dated", at, "%s: a change that is not one of the items" % what)
        return
    for i, d in enumerate(items):
        ks = [k for j, k in ev if j == i]
        k = s.due(d)
        if k > s.n:
            good = len(ks) <= 1
        else:
            good = ks == [k]
        ctx.check(good, "dated", "%s item %d" % (what, i), at, "%s: the item of day %s is applied after the steps %s instead of once after step %d" % (what, float(d), ks or "(never)", k))
    order = [items[i] for i, k in ev]
    ctx.check(order == sorted(order), "order", "%s order" % what, at, "%s: the items are applied in the order of the days %s" % (what, [float(d) for d in order]))


def orders(ctx, clock):
    s = Sched(ctx, clock)
    full = clock is CLOCKS[0] or ctx.tier != "quick"
    ds = item_dates(s.n, s.dt)
    b, c, d, e, f = ds[1], ds[2], ds[3], ds[4], ds[5]
    for p in itertools.permutations((c, d, f)):
        ctx.each("dated", "order", dated, ctx, s, [list(p)], p[0] == f)
    for p in ([c, c, e], [e, c, c], [e, c, e], [d, e, d, c]):
        ctx.each("dated", "equal dates", dated, ctx, s, [p], True)
    for p in itertools.permutations(([c, e], [d, f], [e])) if full else ():
        ctx.each("dated", "several actions", dated, ctx, s, list(p), p[0] == [e])
    for p in ([[e], [c, f], [d]], [[c, f], [d]], [[d], [c, f]], [[f], [e], [d], [c]], [[c], [c]], [[f, c], [e, d]], [[e, c], [e, c]]):
        ctx.each("dated", "several actions", dated, ctx, s, p, True)
    for p in ([[ds[0], b, c]], [[c], [ds[0]]], [[b], [ds[0], f]], [[s.n * s.dt + 5], [c]], [[ds[0], b], [b, c]]):
        ctx.each("dated", "around the period", dated, ctx, s, p)


def refused(ctx):
    """a change that is refused stops the run"""
    s = Sched(ctx, CLOCKS[0])
    s.b.back(s.c.s0)
    s.add([[s.dt, 2 * s.dt]])
    w = s.w
    t = Trace(s.b)
    base = t.call

    def call(ev, e, n, recv, args, tgt):
        if n.endswith("HydroUnit::ChangeLandCoverAreaFraction"):
            base(ev, e, n, recv, args, tgt)
            return FALSE
        return base(ev, e, n, recv, args, tgt)
    t.call = call
    t.run()
    if not any(e[0] == "change" for e in t.events):
        ctx.und("failure", s.at, "no change was seen")
        return
    ctx.check(None if t.ok not in (TRUE, FALSE) else t.ok is FALSE or t.thrown > 0, "failure", "told", s.at, "a land cover change that is refused is reported as success")


def refused_yearly(ctx):
    """a yearly action that fails stops the run"""
    b, objs = prepare(ctx, YEARLY[0])
    t = Trace(b)
    base = t.call
    seen = []

    def call(ev, e, nme, recv, args, tgt):
        if nme.endswith("::Apply") and recv is not None and recv in objs:
            seen.append(ev.st.pc)
            return FALSE
        return base(ev, e, nme, recv, args, tgt)
    t.call = call
    t.run()
    at = b.w.at(b.actions, "DateUpdate")
    if not any(x is TRUE for x in seen):
        ctx.und("failure", at, "no application was seen")
        return
    ctx.check(None if t.ok not in (TRUE, FALSE) else t.ok is FALSE or t.thrown > 0, "failure", "told yearly", at, "a yearly action that fails is reported as success")


# ------------------------------------------------------------------- yearly
def day(y, m, d, h=0):
    return Fraction(int((datetime.datetime(y, m, d, h) - datetime.datetime(1858, 11, 17)).total_seconds()), 86400)


# start, time step, unit, steps, yearly dates (month, day) of each action
YEARLY = [
    ((2019, 12, 29), 1, "day", 6, [[(1, 1)], [(12, 31)], [(1, 2)]]),
    ((2019, 12, 31), 6, "hour", 9, [[(1, 1)], [(1, 2)]]),
    ((2019, 12, 31, 12), 6, "hour", 6, [[(1, 1)]]),
    ((2019, 12, 31, 12), 1, "day", 4, [[(1, 1)], [(1, 2), (1, 3)]]),
    ((2019, 12, 30), 5, "day", 3, [[(1, 1)], [(1, 2), (1, 3)], [(1, 7)]]),
    ((2020, 2, 27), 1, "day", 4, [[(2, 28)], [(3, 1)]]),
    ((2019, 9, 20), 10, "day", 5, [[(10, 1)], [(9, 30), (10, 30)]]),
    ((2018, 12, 30), 150, "day", 6, [[(1, 1)], [(6, 1), (10, 1)]]),
    ((2019, 10, 1), 1, "hour", 30, [[(10, 1)], [(10, 2)]]),
    ((2020, 1, 1), 30, "minute", 50, [[(1, 2)]]),
]


def prepare(ctx, row):
    start, step, unit, n, actions = row
    t0 = datetime.datetime(*start)
    end = t0 + datetime.timedelta(seconds=float((n - 1) * step * DAYS[unit] * 86400))
    b = Built(ctx, "socont-plain", start=t0.isoformat(sep=" "), end=end.isoformat(sep=" "), step=step, unit=unit, log_all=False)
    w = b.w
    w.named_finite = True
    r = b.initialize()
    if not b.clean or w.isok(r) is not TRUE:
        raise Broken("the structure cannot be initialised in the analysis")
    objs = []
    for g in actions:
        a = w.new("ActionGlacierSnowToIceTransformation", num(g[0][0]), num(g[0][1]), V.string("glacier"))
        for m, d in g[1:]:
            w.m(a, "AddRecursiveDate", num(m), num(d))
        if w.m(b.model, "AddAction", a) is not TRUE:
            raise Broken("an action is refused in the analysis")
        objs.append(a)
    return b, objs


def yearly(ctx, row):
    start, step, unit, n, actions = row
    t0 = datetime.datetime(*start)
    dt = step * DAYS[unit]
    end = t0 + datetime.timedelta(seconds=float((n - 1) * dt * 86400))
    b, objs = prepare(ctx, row)
    w = b.w
    at = w.at(b.actions, "DateUpdate")
    title = "from %s, %d steps of %d %s" % (t0.isoformat(sep=" "), n, step, unit)
    for again in (False, True):
        t = Trace(b)
        got = []
        base = t.call

        def call(ev, e, nme, recv, args, tgt):
            if nme.endswith("::Apply") and recv is not None and recv in objs:
                got.append((objs.index(recv), len(t.steps), ev.st.pc))
                return TRUE
            return base(ev, e, nme, recv, args, tgt)
        t.call = call
        t.run()
        extra = " in a second run" if again else ""
        if not b.clean or len(t.steps) != n:
            ctx.und("yearly", at, "%s: the run was not followed%s: %s" % (title, extra, w.notes[:2]))
            return
        if any(x[2] is not TRUE for x in got):
            ctx.und("yearly", at, "%s: it is not known whether an action is applied%s" % (title, extra))
            return
        t1 = day(*start)
        for i, g in enumerate(actions):
            ks = sorted(k for j, k, pc in got if j == i)
            want, may = [], []
            for y in range(t0.year - 1, end.year + 3):
                for m, d in g:
                    x = day(y, m, d)
                    if t1 < x <= t1 + n * dt:
                        want.append(int(-((t1 - x) // dt)))
                    elif t1 - 1 < x <= t1:
                        may.append(1)
            want.sort()
            good = ks == want or ks == sorted(want + may)
            ctx.check(good, "yearly", "%s %s%s" % (title, g, extra), at, "%s: the action of every %s is applied after the steps %s instead of %s%s" % (
                title, " and ".join("%d/%d" % x for x in g), ks, want, extra))
        w.m(b.model, "Reset")


def run(ctx):
    ctx.rule("dated", "each dated item is applied once, by the first advance of the clock that reaches its date")
    ctx.rule("order", "items are applied in the order of their dates, whatever the order in which they and their actions were added")
    ctx.rule("failure", "an action that fails stops the run, which is reported")
    ctx.rule("yearly", "a yearly action is applied once for each of its dates in the period, whatever the time step")
    for c in CLOCKS:
        ctx.each("dated", "%s" % (c,), orders, ctx, c)
    ctx.each("failure", "refused", refused, ctx)
    ctx.each("failure", "refused yearly", refused_yearly, ctx)
    for row in YEARLY:
        ctx.each("yearly", "%s" % (row[0],), yearly, ctx, row)
