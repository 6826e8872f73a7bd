"""C20: forcing values are taken from the record of the simulated date.

Series with an unknown value per record are made for many starts and time steps (dates rounded
as doubles), positioned at the date of each record, moved on, and positioned outside. Series of
several units, with data of their own extent, are offered to models: those that do not cover the
period or have another time step have to be refused, the others have to give every step of a
run the value of its date."""
from fractions import Fraction
from .. import vals as V
from ..vals import mk, num, nat, TRUE, FALSE
from ..bench import Missing
from ..model import World
from ..structures import Built
from ..runs import Trace, same
from ..ir import Broken
from .c04 import text, mjd0, DAYS
from .c31 import STARTS, UNITS

ASSUMPTIONS = ["Dates are whole minutes, turned into doubles from the seconds since 1970. A date between two records, or after the last one by less than a step, is not looked at.",
               "The extents and time steps listed in the check stand for all."]
F = Fraction
STEPS = [("Day", 1), ("Day", 3), ("Hour", 1), ("Hour", 3), ("Hour", 6), ("Minute", 1), ("Minute", 10), ("Minute", 45)]
NONE = "refused"


class Refused(Exception):
    pass


def told(w, f):
    """the result of a call that may be refused by an error: a value or NONE"""
    s = w.st.copy()
    n0 = len(w.throws)
    r = f()
    if w.st.pc is FALSE and len(w.throws) > n0:
        w.st = s
        return NONE
    if r is FALSE:
        w.st = s
    return NONE if r is FALSE else r


def val(k, tag=""):
    return nat(("name", "record%s %d" % (tag, k)))


def data(w, u, k, d0, n, values=None, tag=""):
    d = w.new("TimeSeriesDataRegular", num(w.rounded(d0)), num(w.rounded(d0 + (n - 1) * k * UNITS[u])), num(k), mk("enum", "TimeUnit::" + u))
    r = told(w, lambda: w.m(d, "SetValues", mk("vec", *[val(i, tag) for i in range(values or n)])))
    return d, r


def regular(ctx, w, s0, u, k, start, n):
    w.st = s0.copy()
    dt = k * UNITS[u]
    d0 = mjd0() + start
    key = "%d records every %d %s from day %s" % (n, k, u.lower(), float(d0))
    d, r = data(w, u, k, d0, n)
    at = w.at(d, "SetValues")
    ctx.check(r is not NONE if r is NONE or r is TRUE else None, "records", key + " accepted", at, "%s: a value for each date is refused" % key)
    if r is NONE:
        return
    for m in (n - 1, n + 1, 2 * n):
        if m < 1:
            continue
        s = w.st.copy()
        x, r2 = data(w, u, k, d0, n, m)
        ctx.check(True if r2 is NONE else (False if r2 is TRUE else None), "records", "%s given %d" % (key, m), at, "%s: %d values are accepted" % (key, m))
        w.st = s
    s1 = w.st.copy()
    pos = w.at(d, "SetCursorToDate")
    for i in range(n):
        for get in ("cursor", "value for"):
            w.st = s1.copy()
            date = num(w.rounded(d0 + i * dt))
            if get == "cursor":
                r = told(w, lambda: w.m(d, "SetCursorToDate", date))
                v = told(w, lambda: w.m(d, "GetCurrentValue")) if r is TRUE else r
            else:
                v = told(w, lambda: w.m(d, "GetValueFor", date))
            ctx.check(False if v is NONE else same(v, val(i)), "position", "%s %s %d" % (key, get, i), pos, "%s: at the date of record %d: %s" % (key, i, v if v is NONE else V.show(v)[:80]))
    for what, date in (("a step before the first record", d0 - dt), ("a minute before the first record", d0 - F(1, 1440)), ("a step after the last record", d0 + n * dt), ("far after the last record", d0 + 3 * n * dt)):
        w.st = s1.copy()
        date = num(w.rounded(date))
        r = told(w, lambda: w.m(d, "SetCursorToDate", date))
        ctx.check(True if r is NONE else (False if r is TRUE else None), "outside", "%s %s" % (key, what), pos, "%s: positioning %s is not refused" % (key, what))
        w.st = s1.copy()
        v = told(w, lambda: w.m(d, "GetValueFor", date))
        ctx.check(True if v is NONE else (False if v.k in ("num", "uninit") else None), "outside", "%s value %s" % (key, what), w.at(d, "GetValueFor"), "%s: %s, a value is given: %s" % (key, what, v is not NONE and V.show(v)[:60]))
    adv = w.at(d, "AdvanceOneTimeStep")
    for i in sorted({0, n // 2, n - 1}):
        w.st = s1.copy()
        date = num(w.rounded(d0 + i * dt))
        if told(w, lambda: w.m(d, "SetCursorToDate", date)) is not TRUE:
            continue
        moved = 0
        while moved < 2 * n + 2:
            r = told(w, lambda: w.m(d, "AdvanceOneTimeStep"))
            if r is not TRUE:
                break
            moved += 1
            if i + moved < n:
                v = told(w, lambda: w.m(d, "GetCurrentValue"))
                ctx.check(False if v is NONE else same(v, val(i + moved)), "advance", "%s from %d by %d" % (key, i, moved), adv, "%s: %d advances from record %d give %s" % (key, moved, i, v if v is NONE else V.show(v)[:80]))
        ctx.check(moved >= n - 1 - i if r is NONE else None, "advance", "%s from %d early" % (key, i), adv, "%s: from record %d only %d advances are made" % (key, i, moved))
        ctx.check(moved <= n - i if r is NONE or moved > n else None, "outside", "%s from %d on" % (key, i), adv, "%s: from record %d, %d advances are not refused" % (key, i, moved))


def several(ctx, kind):
    """the data of all units are positioned and moved on together, and told apart"""
    w = World(ctx, ieee=True)
    w.named_finite = True
    dt, d0, n = F(1, 24) * 3, mjd0() + F(7, 24), 5
    ids = (4, 2, 7) if kind == "distributed" else (None,)

    def make(extents):
        ts = w.new("TimeSeries" + kind.capitalize(), mk("enum", "VariableType::Precipitation"))
        for i, (off, m) in zip(ids, extents):
            d, r = data(w, "Hour", 3, d0 + off * dt, m, tag=" of %s" % i)
            if r is not TRUE:
                raise V.Unknown("data are refused")
            if i is None:
                w.m(ts, "SetData", d)
            else:
                w.m(ts, "AddData", d, num(i))
        return ts

    def at(ts, i):
        p = told(w, lambda: w.m(ts, "GetDataPointer", num(i or 0)))
        return told(w, lambda: w.m(p, "GetCurrentValue")) if p is not NONE else p
    s0 = w.st.copy()
    ts = make([(0, n)] * len(ids))
    s1 = w.st.copy()
    for k in range(n):
        w.st = s1.copy()
        r = told(w, lambda: w.m(ts, "SetCursorToDate", num(w.rounded(d0 + k * dt))))
        ctx.check(True if r is TRUE else (False if r is NONE else None), "position", "%s %d" % (kind, k), w.at(ts, "SetCursorToDate"), "a %s series cannot be positioned at record %d" % (kind, k))
        for j in range(n - k):
            for i in ids:
                v = at(ts, i)
                ctx.check(False if v is NONE else same(v, val(k + j, " of %s" % i)), "position", "%s of %s at %d after %d" % (kind, i, k, j), w.at(ts, "AdvanceOneTimeStep" if j else "SetCursorToDate"),
                          "%s series, unit %s: at record %d after %d advances the value is %s" % (kind, i, k, j, v if v is NONE else V.show(v)[:60]))
            r = told(w, lambda: w.m(ts, "AdvanceOneTimeStep"))
            if k + j + 1 < n:
                ctx.check(True if r is TRUE else (False if r is NONE else None), "advance", "%s from %d after %d" % (kind, k, j), w.at(ts, "AdvanceOneTimeStep"), "a %s series does not advance to record %d" % (kind, k + j + 1))
        r = told(w, lambda: w.m(ts, "AdvanceOneTimeStep"))
        r = told(w, lambda: w.m(ts, "AdvanceOneTimeStep")) if r is TRUE else r
        ctx.check(True if r is NONE else (False if r is TRUE else None), "outside", "%s after the end from %d" % (kind, k), w.at(ts, "AdvanceOneTimeStep"), "a %s series advances after its last record" % kind)
    for j in range(len(ids)):
        w.st = s0.copy()
        ext = [(0, n)] * len(ids)
        ext[j] = (1, n - 2)             # one unit starts later and ends earlier
        ts = make(ext)
        for k, what in ((0, "before its first"), (n - 1, "after its last")):
            s = w.st.copy()
            r = told(w, lambda: w.m(ts, "SetCursorToDate", num(w.rounded(d0 + k * dt))))
            ctx.check(True if r is NONE else (False if r is TRUE else None), "outside", "%s data %d %s" % (kind, j, what), w.at(ts, "SetCursorToDate"), "a %s series is positioned at a date that is, for data %d, %s record" % (kind, j, what))
            w.st = s


def offers(ctx, clock):
    """series of several extents offered to a model"""
    unit, step, n, start, spare = clock
    dt, d0 = step * UNITS[unit], mjd0() + start
    b = Built(ctx, "gr4j", start=text(start), end=text(start + (n - 1 + spare) * dt), step=step, unit=unit.lower(), log_all=False, ieee=True)
    w = b.w
    w.named_finite = True
    r = b.initialize()
    ti = "%d steps of %d %s from day %s" % (n, step, unit.lower(), float(d0))
    if not b.clean or w.isok(r) is not TRUE:
        raise Broken("the model cannot be initialised in the analysis")
    ids = [b.uid(u) for u in b.units()]
    at = w.at(b.model, "AddTimeSeries")
    s0 = b.snap()
    kinds = b.forcing_kinds()
    m = n + (1 if spare else 0)

    def series(kind, extents, u=unit, k=step, empty=False):
        """extents: (first record, number of records) per unit, in steps of the model"""
        ts = w.new("TimeSeriesDistributed", mk("enum", "VariableType::" + kind))
        for i, (off, cnt) in zip(ids, extents):
            sp = k * UNITS[u]
            d = w.new("TimeSeriesDataRegular", num(w.rounded(d0 + off * dt)), num(w.rounded(d0 + off * dt + (cnt - 1) * sp)), num(k), mk("enum", "TimeUnit::" + u))
            if not empty:
                r = told(w, lambda: w.m(d, "SetValues", mk("vec", *[nat(("name", "%s[%d,%d]" % (kind, i, j))) for j in range(cnt)])))
                if r is not TRUE:
                    raise V.Unknown("data are refused")
            w.m(ts, "AddData", d, num(i))
        return ts

    def run(off):
        """add and attach series starting that many steps before the period, and run"""
        for kd in kinds:
            r = told(w, lambda: w.m(b.model, "AddTimeSeries", series(kd, [(-off, m + off)] * len(ids))))
            if r is not TRUE:
                return r
        r = told(w, lambda: w.m(b.model, "AttachTimeSeriesToHydroUnits"))
        return Trace(b).run(dump=False) if r is TRUE else r
    for off in (0, 1, 3):
        b.back(s0)
        t = run(off)
        if t is NONE:
            ctx.bad("cover", "%s from %d before" % (ti, off), at, "%s: series from %d steps before the start to the end are refused" % (ti, off))
            continue
        if not isinstance(t, Trace) or not b.clean:
            ctx.und("runs", at, "%s: the run was not followed" % ti)
            continue
        ctx.check(None if t.ok not in (TRUE, FALSE) else t.ok is TRUE and len(t.steps) == n, "runs", "%s from %d before end" % (ti, off), w.at(b.model, "Run"), "%s: with series from %d steps before the start to the end, %d steps are made%s" % (ti, off, len(t.steps), "" if t.ok is TRUE else " and the run fails"))
        for k, s in enumerate(t.steps[:n]):
            for j, v in enumerate(s["forcing"]):
                want = nat(("name", "%s[%d,%d]" % (t.kinds[j], t.forcings[j][0], k + off)))
                ctx.check(same(v, want), "runs", "%s from %d before, step %d, %s" % (ti, off, k, V.show(want)), w.at(b.model, "Run"), "%s: %s of unit %d in step %d is %s instead of %s" % (ti, t.kinds[j], t.forcings[j][0], k + 1, V.show(v)[:80], V.show(want)))
    full = [(0, m)] * len(ids)
    bad = {"starting a step late": [(1, m - 1)] * len(ids), "ending a step early": [(0, m - 1)] * len(ids), "before the period": [(-m - 2, m)] * len(ids), "after the period": [(m + 2, m)] * len(ids)}
    for j in range(len(ids)):
        bad["late for unit %d" % ids[j]] = full[:j] + [(1, m - 1)] + full[j + 1:]
        bad["ending early for unit %d" % ids[j]] = full[:j] + [(0, m - 1)] + full[j + 1:]
    for what, ext in bad.items():
        if min(c for o, c in ext) < 1:
            continue
        refuse(ctx, b, s0, at, "cover", "%s: series %s" % (ti, what), lambda: series(kinds[0], ext))
    other = {"Day": [("Day", step + 1), ("Hour", 12), ("Hour", 1)], "Hour": [("Day", 1), ("Hour", step + 1), ("Minute", 30)], "Minute": [("Hour", 1), ("Minute", 2 * step), ("Day", 1)]}[unit]
    for u, k in other:
        sp = k * UNITS[u]
        cnt = int(-((-m * dt) // sp)) + 1
        refuse(ctx, b, s0, at, "time step", "%s: series of every %d %s" % (ti, k, u.lower()), lambda: series(kinds[0], [(0, cnt)] * len(ids), u, k))
    refuse(ctx, b, s0, at, "cover", "%s: series without values" % ti, lambda: series(kinds[0], full, empty=True))

    def twice():
        r = told(w, lambda: w.m(b.model, "AddTimeSeries", series(kinds[0], full)))
        if r is not TRUE:
            raise V.Unknown("the first series")
        return series(kinds[0], full)
    refuse(ctx, b, s0, at, "cover", "%s: second series of the same kind" % ti, twice)


def arrays(ctx, clock):
    """series made of arrays of dates and values, as the package hands them over"""
    unit, step, n, start, spare = clock
    dt, d0 = step * UNITS[unit], mjd0() + start
    b = Built(ctx, "gr4j", start=text(start), end=text(start + (n - 1 + spare) * dt), step=step, unit=unit.lower(), log_all=False, ieee=True)
    w = b.w
    w.named_finite = True
    r = b.initialize()
    ids = [b.uid(u) for u in b.units()][::-1]
    kinds = b.forcing_kinds()
    n += 1 if spare else 0
    ti = "arrays of %d dates, every %d %s" % (n, step, unit.lower())
    names = {"Precipitation": "precipitation", "Temperature": "temperature", "PET": "pet", "TemperatureMin": "temperature_min", "TemperatureMax": "temperature_max", "Radiation": "solar_radiation"}
    if not b.clean or any(k not in names for k in kinds):
        raise V.Unknown("the model cannot be initialised in the analysis %s" % kinds)
    at = w.at(b.model, "CreateTimeSeries")
    s0 = b.snap()

    def offer(k, rows, cols, off=0):
        time = mk("vec", *[num(w.rounded(d0 + (off + i) * dt)) for i in range(n)])
        vals = mk("vec", *[mk("vec", *[nat(("name", "%s[%d,%d]" % (k, u, i))) for u in (ids + [99])[:cols]]) for i in range(rows)])
        return told(w, lambda: w.m(b.model, "CreateTimeSeries", V.string(names[k]), time, mk("vec", *[num(i) for i in ids]), vals))
    for k in kinds:
        r = offer(k, n, len(ids))
        if r is not TRUE:
            ctx.check(False if r is NONE and b.clean else None, "arrays", "%s %s" % (ti, k), at, "%s: %s is refused: %s %s" % (ti, k, w.notes[-2:], r is not NONE and V.show(r)[:300]))
            return
    if told(w, lambda: w.m(b.model, "AttachTimeSeriesToHydroUnits")) is not TRUE:
        raise V.Unknown("the series are not attached")
    t = Trace(b).run(dump=False)
    for i, s in enumerate(t.steps[:n]):
        for j, v in enumerate(s["forcing"]):
            want = nat(("name", "%s[%d,%d]" % (t.kinds[j], t.forcings[j][0], i)))
            ctx.check(same(v, want), "arrays", "%s step %d, %s" % (ti, i, V.show(want)), at, "%s: %s of unit %d in step %d is %s instead of %s" % (ti, t.kinds[j], t.forcings[j][0], i + 1, V.show(v)[:80], V.show(want)))
    for rows, cols in ((n - 1, len(ids)), (n + 1, len(ids)), (n, len(ids) - 1), (n, len(ids) + 1)):
        if rows < 1 or cols < 1:
            continue
        b.back(s0)
        r = offer(kinds[0], rows, cols)
        ctx.check(True if r is NONE else (False if r is TRUE and b.clean else None), "arrays", "%s, %d by %d values" % (ti, rows, cols), at, "%s: values for %d dates and %d units are accepted" % (ti, rows, cols))


def refuse(ctx, b, s0, at, rule, what, make):
    b.back(s0)
    w = b.w
    ts = make()
    r = told(w, lambda: w.m(b.model, "AddTimeSeries", ts))
    ctx.check(True if r is NONE else (False if r is TRUE and b.clean else None), rule, what, at, "%s: not refused" % what)


def run(ctx):
    ctx.rule("records", "a series takes one value per date, no more and no fewer")
    ctx.rule("position", "positioned at a date, every data of a series gives the value of that date")
    ctx.rule("advance", "each advance moves every data by one record, up to the last")
    ctx.rule("outside", "positions and advances outside the records are refused")
    ctx.rule("cover", "a model takes a series when it covers the period for every unit, and only then")
    ctx.rule("time step", "a model refuses a series of another time step")
    ctx.rule("arrays", "arrays of dates and values make a series whose values are those of the date and unit; arrays that do not fit are refused")
    ctx.rule("runs", "each step of a run has the values of its date, wherever the records start")
    if "TimeSeriesDataRegular" not in ctx.prog.cls:
        raise Broken("class TimeSeriesDataRegular not found")
    w = World(ctx, ieee=True)
    w.named_finite = True
    s0 = w.st.copy()
    for i, (u, k) in enumerate(STEPS):
        for j, st in enumerate(STARTS):
            if ctx.tier == "quick" and u == "Day" and j % 2:
                continue
            for n in ((2, 7, 24) if (i + j) % 3 == 0 else (1, 13)):
                V.reset_budget()
                ctx.each("position", "%d %s" % (k, u), regular, ctx, w, s0, u, k, st, n)
    for kind in ("distributed", "uniform"):
        ctx.each("position", kind, several, ctx, kind)
    for clock in (("Day", 1, 4, F(0), F(0)), ("Hour", 1, 5, F(7, 24), F(0)), ("Hour", 6, 4, F(6, 24), F(0)), ("Day", 2, 3, F(0), F(1, 2))):
        ctx.each("arrays", "%s" % (clock,), arrays, ctx, clock)
    for clock in (("Day", 1, 4, F(0), F(0)), ("Hour", 1, 5, F(7, 24), F(0)), ("Hour", 3, 4, F(6, 24), F(1, 3)), ("Minute", 20, 5, F(1439, 1440), F(0)), ("Day", 2, 3, F(0), F(1, 2))):
        ctx.each("cover", "%s" % (clock,), offers, ctx, clock)
