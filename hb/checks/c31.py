"""C31: the simulated period has exactly as many steps as are recorded.

The clock's own code is evaluated on periods of many starts, ends and time steps, with the
doubles rounded as the hardware rounds them: the steps it makes until it says it is over, and
the number of steps it announces, against the number of dates of the period. The end of the
period is also compared, after a few steps, with the announced number for a start, an end and
a step that are unknown. Whole runs then have to size every record, and fill it, accordingly."""
from fractions import Fraction
from .. import vals as V
from ..vals import mk, num, TRUE, FALSE
from ..scene import nm
from ..model import World
from ..runs import Trace, Records, constant
from ..ir import Broken
from .c04 import Case, DAYS, mjd0

ASSUMPTIONS = ["The dates of a period are start + k steps, as far as they are not after its end; dates are whole minutes and are turned into doubles from the seconds since 1970.",
               "The periods listed in the check stand for all."]
F = Fraction
UNITS = {"Day": F(1), "Hour": F(1, 24), "Minute": F(1, 1440), "Week": F(7)}
STEPS = [("Day", 1), ("Day", 2), ("Day", 7), ("Week", 1), ("Hour", 1), ("Hour", 3), ("Hour", 5), ("Hour", 12), ("Minute", 1), ("Minute", 7), ("Minute", 10), ("Minute", 15), ("Minute", 45)]
STARTS = [F(0), F(6, 24), F(7, 24), F(23 * 60 + 59, 1440), F(10, 1440)]
COUNTS = [1, 2, 3, 8, 13, 25, 60]
SPARE = [F(0), F(1, 2)]
LIMIT = 400


def periods(quick):
    for u, k in STEPS:
        for i, s in enumerate(STARTS):
            if u in ("Day", "Week") and quick and i % 2:
                continue
            for j, n in enumerate(COUNTS):
                if quick and (i + j) % 2 and n > 3:
                    continue
                for sp in SPARE:
                    if (k * UNITS[u] * sp * 1440).denominator == 1:
                        yield u, k, s, n, sp


def clock(ctx, w, s0, case):
    u, k, s, n, sp = case
    w.st = s0.copy()
    w.ieee = False
    dt = k * UNITS[u]
    d0 = mjd0() + s
    start, end = w.rounded(d0), w.rounded(d0)
    w.ieee = True
    start, end = w.rounded(d0), w.rounded(d0 + (n - 1 + sp) * dt)
    t = w.new("TimeMachine")
    w.m(t, "Initialize", num(start), num(end), num(k), mk("enum", "TimeUnit::" + u))
    at = w.at(t, "IsOver")
    key = "%d %s, %d dates%s from day %s" % (k, u.lower(), n, " and a half step" if sp else "", float(d0))
    told = constant(w.m(t, "GetTimeStepCount"))
    made = 0
    while made <= min(LIMIT, 3 * n + 3):
        over = w.m(t, "IsOver")
        if over is TRUE:
            break
        if over is not FALSE:
            ctx.und("steps", at, "%s: %s" % (key, V.show(over)[:80]))
            return
        d = constant(w.m(t, "GetDate"))
        good = None if d is None else abs(d - (d0 + made * dt)) < F(1, 864000)
        ctx.check(good, "dates", "%s date %d" % (key, made), w.at(t, "IncrementTime"), "%s: the date of step %d is %s instead of %s" % (key, made + 1, d and float(d), float(d0 + made * dt)))
        w.m(t, "IncrementTime")
        made += 1
    if told is None:
        ctx.und("steps", w.at(t, "GetTimeStepCount"), key)
        return
    ctx.check(told == made, "steps", key + " announced", w.at(t, "GetTimeStepCount"), "%s: %d steps are announced, %s are made" % (key, told, made if made <= 3 * n + 3 else "more"))
    ctx.check(made == n, "steps", key + " made", at, "%s: %s steps are made" % (key, made if made <= 3 * n + 3 else "more than %d" % made))


def anywhere(ctx, unit):
    """for unknown start, end: over after j steps exactly when j steps are announced at most"""
    w = World(ctx)
    w.maxloop = 6
    start, end, k = nm("start"), nm("end"), nm("step")
    w.assume(start > 1, end > start, k > 1)
    t = w.new("TimeMachine")
    w.m(t, "Initialize", start.v, end.v, k.v, mk("enum", "TimeUnit::" + unit))
    told = w.m(t, "GetTimeStepCount")
    for j in range(4):
        over = w.m(t, "IsOver")
        want = V.le(told, num(j))
        same = over is want or V.b_not(over) is V.b_not(want)
        ctx.check(True if same else None, "any period", "%s after %d" % (unit, j), w.at(t, "IsOver"), "after %d steps: over when %s, announced %s" % (j, V.show(over)[:100], V.show(told)[:100]))
        ctx.check(True if w.m(t, "GetTimeStepCount") is told else None, "any period", "%s count after %d" % (unit, j), w.at(t, "GetTimeStepCount"), "the number of steps announced depends on the steps made")
        w.m(t, "IncrementTime")
    w.m(t, "Reset")
    over = w.m(t, "IsOver")
    ctx.check(True if over is V.le(told, num(0)) else None, "any period", "%s reset" % unit, w.at(t, "Reset"), "after a reset")


RUNS = [("gr4j", 1, "hour", 7, 0, True), ("gr4j", 20, "minute", 5, 0, True), ("socont-plain", 3, "hour", 6, F(1, 3), True), ("gr4j", 1, "day", 1, 0, True), ("outlets", 3, "day", 4, F(2, 3), True)]


def whole(ctx, row, spinup, d):
    """a run with rounded dates fills its records exactly"""
    c = Case(ctx, row, spinup=spinup, first=d, ieee=True)
    at, ti = c.w.at(c.b.logger, "InitContainers"), "%s from day %s%s" % (c.title, float(d), ", %s days of spin-up" % spinup if spinup else "")
    if c.refused:
        ctx.bad("records", ti + " forcing", c.at, "%s: complete forcing is refused: %s" % (ti, c.refused[0]))
        return
    t = c.trace()
    if not c.b.clean or t.written is None or len(t.written) != 11:
        ctx.und("records", c.at, "%s: the run was not followed: %s" % (ti, c.w.notes[:2]))
        return
    warm = min(int(spinup / c.dt), c.n)
    ctx.check(len(t.steps) == c.n + warm, "records", ti + " steps", c.at, "%s: %d steps are made instead of %d" % (ti, len(t.steps), c.n + warm))
    r = Records(t.written)
    sizes = {"dates": len(r.dates)}
    for what, vs in (("basin values", r.bvalues), ("unit values", r.uvalues), ("fractions", r.fvalues)):
        for x in vs.a:
            if x.k == "vec":
                sizes.setdefault(what, len(x.a))
                if len(x.a) != c.n:
                    sizes[what] = len(x.a)
    for what, k in sizes.items():
        ctx.check(k == c.n, "records", "%s %s" % (ti, what), at, "%s: there is room for %d %s" % (ti, k, what))
    late = [k for k, x in enumerate(r.dates) if constant(x) is None]
    ctx.check(None if any(r.dates[k].k not in ("uninit", "num") for k in late) else not late, "records", ti + " filled", at, "%s: the rows %s are never filled" % (ti, [k + 1 for k in late]))


def run(ctx):
    ctx.rule("steps", "the clock makes one step for each date of the period and announces that number")
    ctx.rule("dates", "step k of the clock is at start + k steps")
    ctx.rule("any period", "the clock is over when the announced number of steps is made, whatever the period")
    ctx.rule("records", "the records of a run have a row per step and all are filled")
    if "TimeMachine" not in ctx.prog.cls:
        raise Broken("class TimeMachine not found")
    w = World(ctx)
    s0 = w.st.copy()
    for i, case in enumerate(periods(ctx.tier == "quick")):
        if i % 40 == 0:
            V.reset_budget()
        ctx.each("steps", "%s" % (case,), clock, ctx, w, s0, case)
    for u in UNITS:
        ctx.each("any period", u, anywhere, ctx, u)
    for i, row in enumerate(RUNS):
        for spin, d in ((0, STARTS[i % 5]), (0, STARTS[(i + 2) % 5]), (F(3, 2) if row[2] == "day" else F(1, 4), STARTS[(i + 3) % 5])):
            ctx.each("records", "%s" % (row,), whole, ctx, row, spin, d)
