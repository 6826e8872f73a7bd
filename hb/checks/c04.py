"""C04: each time step computes, records once, then advances clock and forcing once.

Whole runs are evaluated with the work inside a time step left out: when the run asks for a
step, every location that recording reads gets a value named after the location and the step,
and the clock and the forcing values seen at that moment are noted. What the run writes down
at its end is then compared with the steps it made."""
import datetime
from fractions import Fraction
from .. import vals as V
from ..vals import mk, num, nat, TRUE, FALSE
from ..bench import Missing
from ..structures import Built
from ..runs import Trace, Records, same, value_of, constant
from ..ir import Broken

ASSUMPTIONS = ["The run loop does not depend on what a time step computes, only on whether it succeeds; a handful of periods, time steps and sets of series stand for all.",
               "Runs have up to twelve steps."]

# structure, solver, time step, unit, steps, spare time at the end (in steps), log all
RUNS = [("gr4j", 1, "day", 1, 0, True), ("gr4j", 1, "day", 4, 0, True), ("socont-plain", 1, "day", 3, 0, True), ("gr4j", 2, "day", 3, Fraction(1, 2), True),
        ("socont-plain", 6, "hour", 5, 0, False), ("gr4j", 30, "minute", 4, 0, True), ("outlets", 1, "hour", 12, 0, True), ("hbv", 1, "day", 2, 0, False)]
DAYS = {"day": Fraction(1), "hour": Fraction(1, 24), "minute": Fraction(1, 1440)}
T0 = datetime.datetime(2020, 1, 30)


def text(days):
    return (T0 + datetime.timedelta(seconds=float(days * 86400))).isoformat(sep=" ")


def mjd0():
    return Fraction((T0 - datetime.datetime(1858, 11, 17)).days)


class Case:
    def __init__(self, ctx, row, spinup=0, first=0, **kw):
        self.name, step, unit, self.n, spare, log = row
        self.row, self.ctx = row, ctx
        self.dt = step * DAYS[unit]
        self.start = mjd0() + first
        self.title = "%s, %d steps of %d %s%s" % (self.name, self.n, step, unit, "" if log else ", little recorded")
        self.b = b = Built(ctx, self.name, start=text(first), end=text(first + (self.n - 1 + spare) * self.dt), step=step, unit=unit, log_all=log, spinup=spinup, **kw)
        self.w = w = b.w
        w.named_finite = True
        r = b.initialize()
        if not b.clean or w.isok(r) is not TRUE:
            raise Broken("%s cannot be initialised in the analysis: %s %s" % (self.title, V.show(r)[:200], w.notes[:3]))
        self.kinds = b.forcing_kinds()
        got = b.forcing(self.kinds, n=self.n + (1 if spare else 0), start=self.start, step=step, unit=unit.capitalize())
        self.refused = [V.show(x)[:80] for x in got if w.seen_ok(x) is not TRUE]
        self.s0 = b.snap()
        self.at = w.at(b.model, "Run")

    def trace(self, **kw):
        self.b.back(self.s0)
        return Trace(self.b, **kw).run()


def forced(c, t, k, u, j):
    """the symbol of the record of step k for forcing j"""
    uid, o = t.forcings[j]
    return nat(("name", "%s[%d,%d]" % (t.kinds[j], uid, k)))


def normal(ctx, row):
    c = Case(ctx, row)
    if c.refused:
        ctx.bad("runs", "%s forcing" % c.title, c.at, "%s: complete forcing is refused: %s" % (c.title, c.refused[0]))
        return
    t = c.trace(touch=True)
    ti, at = c.title, c.at
    if not c.b.clean:
        ctx.und("runs", at, "%s: the run was not followed to its end: %s" % (ti, c.w.notes[:2]))
        return
    ctx.check(None if t.ok not in (TRUE, FALSE) else t.ok is TRUE, "runs", "%s result" % ti, at, "%s: a run without failure is not reported as successful" % ti)
    ctx.check(len(t.steps) == c.n, "runs", "%s count" % ti, at, "%s: the run makes %d time steps instead of %d" % (ti, len(t.steps), c.n))
    for k, s in enumerate(t.steps[:c.n]):
        ctx.check(same(s["date"], num(c.start + k * c.dt)), "clock", "%s clock %d" % (ti, k), at, "%s: step %d is computed at date %s instead of %s" % (ti, k + 1, V.show(s["date"]), V.show(num(c.start + k * c.dt))))
        ctx.check(s["step"] is not None and same(s["step"], num(c.dt)), "clock", "%s length %d" % (ti, k), at, "%s: step %d is computed for a length of %s days instead of %s" % (ti, k + 1, s["step"] and V.show(s["step"]), c.dt))
        for j, v in enumerate(s["forcing"]):
            want = forced(c, t, k, None, j)
            ctx.check(same(v, want), "forcing", "%s forcing %d %d" % (ti, k, j), at, "%s: %s of unit %d in step %d is %s instead of the value of that date, %s" % (ti, t.kinds[j], t.forcings[j][0], k + 1, V.show(v)[:80], V.show(want)))
    if t.written is None or len(t.written) != 11:
        ctx.und("records", at, "%s: the records handed to the writer were not recognised" % ti)
        return
    records(ctx, c, t, c.n, 0)


def records(ctx, c, t, n, skip):
    """row k holds the values of step k + skip, for every cell; rows after n hold none"""
    ti, at = c.title, c.w.at(c.b.logger, "Record")
    r = Records(t.written)
    ctx.check(len(r.dates) == c.n, "records", "%s rows" % ti, at, "%s: the results have %d dates for %d steps" % (ti, len(r.dates), c.n))
    for k, d in enumerate(r.dates[:n]):
        ctx.check(same(d, num(c.start + k * c.dt)), "records", "%s date %d" % (ti, k), at, "%s: the date recorded for step %d is %s instead of %s" % (ti, k + 1, V.show(d), V.show(num(c.start + k * c.dt))))
    rows = {}
    for key, x in r.cells.items():
        rows.setdefault(key[:3], {})[key[3]] = x
    for key, vs in sorted(rows.items()):
        if len(vs) != c.n:
            ctx.bad("records", "%s size %s" % (ti, key), at, "%s: '%s' has %d values for %d steps" % (ti, r.label(key), len(vs), c.n))
            continue
        known = {k: value_of(x) for k, x in vs.items()}
        if not any(known.values()) and not any(x.k == "num" for x in vs.values()):
            continue               # nothing to record there
        slot = next((v[0] for v in known.values() if v), None)
        for k in range(c.n):
            x, v = vs[k], known[k]
            if k < n:
                what = None if v is None and x.k not in ("uninit",) and V.show(x) != "nan" else v == (slot, k + 1 + skip)
                ctx.check(what, "records", "%s value %s %d" % (ti, key, k), at, "%s: the value of '%s' recorded for step %d is %s instead of the one this step computed" % (
                    ti, r.label(key), k + 1, "that of step %d" % (v[1] - skip) if v and v[0] == slot else V.show(x)[:80]))
            else:
                ctx.check(v is None, "records", "%s late %s %d" % (ti, key, k), at, "%s: a value of step %s is recorded in row %d although the run stopped at step %d" % (ti, v and v[1], k + 1, n))
    met = {}
    for key, vs in rows.items():
        for k, x in vs.items():
            v = value_of(x)
            if v:
                met.setdefault(v[0], set()).add(key)
    twice = [sorted(v) for v in met.values() if len(v) > 1]
    ctx.check(not twice, "records", "%s twice" % ti, at, "%s: one quantity is recorded in two places: %s" % (ti, [r.label(x) for x in twice[0]] if twice else ""))


def failing(ctx, row, how, k):
    c = Case(ctx, row)
    t = c.trace(fail=k, how=how)
    ti, at = c.title, c.at
    reach = len(t.steps) >= k and (t.advances or not how.startswith("advance"))
    name = {"false": "a step that fails", "throw": "a step that ends with an error", "advance": "a series that ends", "advance throw": "a series that ends with an error"}[how]
    if not reach:
        ctx.und("failure", at, "%s: the failure was not reached" % ti)
        return
    told = t.ok is FALSE or t.thrown > 0
    ctx.check(None if t.ok not in (TRUE, FALSE) else told, "failure", "%s %s told" % (ti, how), at, "%s: %s (step %d) is reported as success" % (ti, name, k))
    ctx.check(len(t.steps) == k, "failure", "%s %s stop" % (ti, how), at, "%s: after %s (step %d) the run goes on to step %d" % (ti, name, k, len(t.steps)))
    if how in ("false", "throw") and t.written is not None and len(t.written) == 11:
        records(ctx, c, t, k - 1, 0)


def run(ctx):
    ctx.rule("runs", "a run makes as many time steps as the period has and succeeds when every step does")
    ctx.rule("clock", "step k is computed at start + k steps, for the length of one step")
    ctx.rule("forcing", "in step k every unit and kind of forcing has the value of record k, whatever was written over it in the step before")
    ctx.rule("records", "the results hold each step's values exactly once, in its row and under its date; nothing is recorded for a step that failed")
    ctx.rule("failure", "a step or series that fails stops the run, which is reported")
    for row in RUNS:
        ctx.each("runs", "%s" % (row,), normal, ctx, row)
    for how in ("false", "throw", "advance", "advance throw"):
        for k in (1, 3):
            ctx.each("failure", how, failing, ctx, RUNS[1], how, k)
