"""C30: land cover and glacier actions update area and content together.

Glaciers in several units are put together as the package does and given the look-up tables of
the evolution actions, with known areas and volumes; the ice contents are known, from more than
the tables start with down to none. Each application is compared with the row of the tables
that the lost ice leads to: areas of that row, the ice of before shared as that row does (over
the units, or kept in each unit). Snow turned to ice is followed with unknown contents."""
from fractions import Fraction
from .. import vals as V
from ..vals import mk, num, TRUE, FALSE
from ..scene import *
from ..bench import Missing
from ..structures import Built
from ..runs import constant
from ..ir import Broken

ASSUMPTIONS = ["Ice contents that lie on a boundary between two rows are not looked at, except those of the first and the last row.",
               "Tables are those the package generates: areas and volumes fall with the rows, a unit without area has no volume in that row.",
               "The ice of glaciers that the table leaves without an area is out of the area scaling; the actions are for glaciers with a limited store of ice."]
F = Fraction
A1 = (5, 200.0, (("glacier", 0.5), ("ground", 0.5), ("debris", 0.0)))
A2 = (2, 400.0, (("glacier", 0.25), ("ground", 0.25), ("debris", 0.5)))
A3 = (9, 100.0, (("glacier", 0.0), ("ground", 1.0), ("debris", 0.0)))
A4 = (7, 100.0, (("glacier", 0.0), ("ground", 0.5), ("debris", 0.5)))
# tables: one column per unit (in the order ids), one row per fifth of the ice
IDS = (2, 5)
AREA = [(100, 100), (80, 90), (60, 70), (40, 30), (10, 20), (0, 0)]
VOL = [(1000, 800), (700, 740), (500, 580), (340, 380), (60, 300), (0, 0)]
AREA3 = [(100, 100, 0), (75, 90, 0), (50, 60, 0), (0, 25, 0), (0, 0, 0)]
VOL3 = [(1200, 800, 0), (800, 700, 0), (400, 600, 0), (0, 500, 0), (0, 0, 0)]


def table(rows):
    return mk("vec", *[mk("vec", *[num(x) for x in r]) for r in rows])


class Ice:
    def __init__(self, ctx, rows=(A1, A2, A4)):
        from ..structures import units
        self.ctx = ctx
        self.b = b = Built(ctx, "ground", units=units(*rows), log_all=False)
        self.w = w = b.w
        w.named_finite = True
        r = b.initialize()
        if not b.clean or w.isok(r) is not TRUE:
            raise Broken("the structure cannot be initialised in the analysis")
        self.units = {b.uid(u): u for u in b.units()}
        self.s0 = b.snap()

    def cover(self, i, n="glacier"):
        return self.w.m(self.units[i], "GetLandCover", V.string(n))

    def brick(self, u, n):
        for x in self.b.bricks(u):
            if self.b.nm(x) == n:
                return x
        raise V.Unknown("brick %s" % n)

    def area(self, i, n="glacier"):
        f, a = constant(self.w.m(self.cover(i, n), "GetAreaFraction")), constant(self.w.m(self.units[i], "GetArea"))
        return None if f is None or a is None else f * a

    def ice(self, i, n="glacier"):
        return constant(self.w.m(self.cover(i, n), "GetContent", mk("enum", "ContentType::Ice")))

    def set_ice(self, i, v):
        self.w.m(self.cover(i), "UpdateContent", num(v) if not isinstance(v, V.V) else v, mk("enum", "ContentType::Ice"))

    def action(self, cls, ids, area, vol, month=10):
        w = self.w
        a = w.new(cls)
        w.m(a, "AddLookupTables", num(month), V.string("glacier"), mk("vec", *[num(i) for i in ids]), table(area), table(vol))
        n0 = len(w.throws)
        r = w.m(self.b.model, "AddAction", a)
        if w.st.pc is FALSE and len(w.throws) > n0:
            return a, FALSE
        return a, r

    def density(self, ids, vol):
        """ice in mm of water per volume, from what the first row gives"""
        for i, v in zip(ids, vol[0]):
            x, ar = self.ice(i), self.area(i)
            if v and x is not None and ar:
                return x * ar / v
        return None


def wrong(t):
    """not a number at all"""
    return t in ("nan", "inf", "-inf") or t.startswith(("div0(", "-div0("))


def near(x, y):
    return x is not None and abs(x - y) <= F(1, 10 ** 6) * max(1, abs(y))


def start(ctx, cls, ids, area, vol, rows, zero):
    """the first row is what the model starts with"""
    s = Ice(ctx, rows)
    a, r = s.action(cls, ids, area, vol)
    at = s.w.at(a, "Init")
    key = "%s%s" % (cls, " into units without the cover" if zero else "")
    if r is not TRUE or not s.b.clean:
        ctx.check(False if r is FALSE else None, "start", key + " added", at, "%s: tables that fit the model are refused" % key)
        return
    rho = s.density(ids, vol)
    if rho is None or not rho > 0:
        ctx.check(False if s.b.clean and all(s.ice(i) is not None for i in ids) else None, "start", key + " ice", at, "%s: the ice of the first row is not set" % key)
        return
    for i, ar, v in zip(ids, area[0], vol[0]):
        x, g = s.ice(i), s.area(i)
        raw = s.w.m(s.cover(i), "GetContent", mk("enum", "ContentType::Ice"))
        ctx.check(None if g is None else near(g, ar), "start", "%s area of %d" % (key, i), at, "%s: the glacier of unit %d starts with an area of %s instead of %s" % (key, i, g and float(g), ar))
        if x is None:
            broken = wrong(V.show(raw))
            ctx.check(False if broken else None, "start", "%s ice of %d" % (key, i), at, "%s: the ice of unit %d starts at %s" % (key, i, V.show(raw)[:80]))
            continue
        ctx.check(near(x * ar, v * rho), "start", "%s ice of %d" % (key, i), at, "%s: the glacier of unit %d starts with %s mm over %s instead of the volume %s of the table" % (key, i, float(x), ar, v))
    rest(ctx, s, key, at, ids)


def rest(ctx, s, key, at, ids):
    """the fractions of every unit still add up to one"""
    for i in s.units:
        tot = sum((s.area(i, n) or 0) for n in ("glacier", "ground", "debris"))
        ctx.check(near(tot, constant(s.w.m(s.units[i], "GetArea"))), "areas", "%s unit %d" % (key, i), at, "%s: the covers of unit %d have an area of %s together" % (key, i, float(tot)))


def loss(area, vol, ids):
    """shares of the starting ice per unit that are worth trying, with the rows they lead to"""
    n = len(area)
    out = [[F(11, 10)] * len(ids), [F(1)] * len(ids), [F(0)] * len(ids)]
    for r in range(n - 1):
        left = 1 - F(2 * r + 1, 2 * (n - 1))
        out.append([left] * len(ids))
        out.append([left - F(1, 8 * (n - 1))] * len(ids))
    for p in range(len(ids)):
        x = [F(9, 10)] * len(ids)
        x[p] = F(3, 100)
        out.append(x)
        y = [F(2, 10) + F(1, 50)] * len(ids)
        y[p] = F(0)
        out.append(y)
    return out


def row_of(pc, n):
    """the row that a lost share leads to; None on a boundary"""
    if pc <= 0:
        return 0
    x = pc * (n - 1)
    if x.denominator == 1 and x != n - 1:
        return None
    return min(int(x), n - 1)


def delta_h(ctx, ids, area, vol, rows, sequences):
    cls = "ActionGlacierEvolutionDeltaH"
    s = Ice(ctx, rows)
    a, r = s.action(cls, ids, area, vol)
    if r is not TRUE or not s.b.clean:
        ctx.und("evolution", s.w.at(a, "Init"), cls)
        return
    at = s.w.at(a, "Apply")
    full = {i: v * s.density(ids, vol) for i, v in zip(ids, vol[0])}
    s1 = s.b.snap()
    for seq in sequences:
        s.b.back(s1)
        key = "%s after %s of the ice" % (cls, ", then ".join(str([str(x) for x in q]) for q in seq))
        for q in seq:
            before = F(0)
            for i, x in zip(ids, q):
                g = s.area(i)
                if g:
                    s.set_ice(i, full[i] * x / g if x <= 1 or True else 0)
                    before += full[i] * x
            row = row_of(1 - before / sum(full.values()), len(area))
            r, threw = apply(s, a)
        if row is None:
            continue
        if r is not TRUE or not s.b.clean:
            ctx.check(False if threw or r is FALSE else None, "evolution", key + " applied", at, "%s: the action fails" % key)
            continue
        total = sum(vol[row])
        for j, i in enumerate(ids):
            g, x = s.area(i), s.ice(i)
            ctx.check(None if g is None else near(g, area[row][j]), "evolution", "%s area of %d" % (key, i), at, "%s: the area of unit %d is %s; row %d has %s" % (key, i, g is not None and float(g), row + 1, area[row][j]))
            want = before * vol[row][j] / total if total else F(0)
            judge_ice(ctx, s, i, x, area[row][j], want, "evolution", "%s ice of %d" % (key, i), at, key, row)
        rest(ctx, s, key, at, ids)
        others(ctx, s, key, at, ids)


def judge_ice(ctx, s, i, x, ar, want, rule, k, at, key, row):
    if x is None:
        sh = V.show(s.w.m(s.cover(i), "GetContent", mk("enum", "ContentType::Ice")))
        ctx.check(False if wrong(sh) else None, rule, k, at, "%s: the ice of unit %d is %s" % (key, i, sh[:80]))
        return
    ctx.check(near(x * ar, want) if ar else near(x, 0), rule, k, at, "%s: unit %d has %s mm of ice over %s (%s); by row %d it is %s" % (key, i, float(x), ar, float(x * ar), row + 1, float(want)))


def apply(s, a):
    w = s.w
    n0 = len(w.throws)
    r = w.m(a, "Apply", num(58880))
    threw = w.st.pc is FALSE and len(w.throws) > n0
    return r, threw


def others(ctx, s, key, at, ids):
    """glaciers that are not in the tables stay"""
    for i in s.units:
        for n in ("glacier", "debris"):
            if n == "glacier" and i in ids:
                continue
            f = constant(s.w.m(s.cover(i, n), "GetAreaFraction"))
            spec = dict(dict((r[0], r[2]) for r in (A1, A2, A3, A4))[i])[n]
            ctx.check(None if f is None else near(f, F(spec)), "others", "%s %s of %d" % (key, n, i), at, "%s: the cover %s of unit %d, not in the tables, now has the fraction %s" % (key, n, i, f is not None and float(f)))


def scaling(ctx, ids, area, vol, rows, sequences):
    cls = "ActionGlacierEvolutionAreaScaling"
    s = Ice(ctx, rows)
    a, r = s.action(cls, ids, area, vol)
    if r is not TRUE or not s.b.clean:
        ctx.und("evolution", s.w.at(a, "Init"), cls)
        return
    at = s.w.at(a, "Apply")
    full = {i: v * s.density(ids, vol) for i, v in zip(ids, vol[0])}
    s1 = s.b.snap()
    for seq in sequences:
        s.b.back(s1)
        key = "%s after %s of the ice" % (cls, ", then ".join(str([str(x) for x in q]) for q in seq))
        for q in seq:
            had = {}
            for i, x in zip(ids, q):
                g = s.area(i)
                had[i] = bool(g)
                if g:
                    s.set_ice(i, full[i] * x / g)
            r, threw = apply(s, a)
        if r is not TRUE or not s.b.clean:
            ctx.check(False if threw or r is FALSE else None, "evolution", key + " applied", at, "%s: the action fails" % key)
            continue
        for j, i in enumerate(ids):
            if not had[i] or not full[i]:
                continue
            row = row_of(1 - q[j], len(area))
            if row is None:
                continue
            g, x = s.area(i), s.ice(i)
            left = full[i] * q[j]
            want = area[row][j] if left else 0
            if left and not want:
                continue                # the table leaves ice without an area
            ctx.check(None if g is None else near(g, want), "evolution", "%s area of %d" % (key, i), at, "%s: the area of unit %d is %s; row %d has %s" % (key, i, g is not None and float(g), row + 1, want))
            judge_ice(ctx, s, i, x, want, left, "evolution", "%s ice of %d" % (key, i), at, key, row)
        rest(ctx, s, key, at, ids)
        others(ctx, s, key, at, ids)


def to_ice(ctx):
    """the snow on the named glaciers becomes ice, nothing else changes"""
    s = Ice(ctx, (A1, A2, A3, A4))
    w, b = s.w, s.b
    SNOW, ICE, WATER = (mk("enum", "ContentType::" + k) for k in ("Snow", "Ice", "Water"))
    for month, day, name in ((9, 30, "glacier"), (10, 1, "glacier")):
        b.back(s.s0)
        a = w.new("ActionGlacierSnowToIceTransformation", num(month), num(day), V.string(name))
        r = w.m(b.model, "AddAction", a)
        at = w.at(a, "Apply")
        if r is not TRUE or not b.clean:
            ctx.und("snow to ice", at, name)
            continue
        facts = []
        cells = {}
        for i, u in s.units.items():
            for n in ("glacier", "ground", "debris"):
                for k, t, o in (("snow", SNOW, s.brick(u, n + "_snowpack")), ("water", WATER, s.brick(u, n + "_snowpack")), ("ice", ICE, s.cover(i, n)), ("water of the cover", WATER, s.cover(i, n))):
                    if k == "ice" and n == "ground":
                        continue
                    if n == "debris" and k == "ice":        # a store without end
                        continue
                    x = nm("%s of %s %d" % (k, n, i))
                    w.assume(x > 1)
                    w.m(o, "UpdateContent", x.v, t)
                    cells[(i, n, k)] = (o, t, x)
        if not b.clean:
            raise V.Unknown("contents")
        r, threw = apply(s, a)
        if r is not TRUE or not b.clean:
            ctx.check(False if threw or r is FALSE else None, "snow to ice", name + " applied", at, "the snow of %s is not turned to ice: the action fails" % name)
            continue
        for (i, n, k), (o, t, x) in cells.items():
            frac = constant(w.m(s.cover(i, n), "GetAreaFraction"))
            act = n == name and frac
            want = num(0) if act and k == "snow" else (x + cells[(i, n, "snow")][2]).v if act and k == "ice" else x.v
            got = w.m(o, "GetContent", t)
            if act or frac:
                apply_judge(ctx, "snow to ice", "%s on %d-%d: %s of %s in unit %d" % (name, month, day, k, n, i), at, got, want, w.facts, "after the snow of '%s' is turned to ice, %s of %s in unit %d:" % (name, k, n, i))
        rest(ctx, s, "snow to ice of " + name, at, ())


def run(ctx):
    ctx.rule("start", "added, an evolution action sets the areas and ice of the first row of its tables")
    ctx.rule("evolution", "applied, it sets areas and ice by one row, that of the ice lost, and keeps the ice there is")
    ctx.rule("areas", "the covers of each unit fill it")
    ctx.rule("others", "glaciers that are not in the tables stay as they are")
    ctx.rule("snow to ice", "the glacier gains the snow that its snowpack loses; nothing else changes")
    for c in ("ActionGlacierEvolutionDeltaH", "ActionGlacierEvolutionAreaScaling", "ActionGlacierSnowToIceTransformation"):
        if c not in ctx.prog.cls:
            raise Broken("class %s not found" % c)
    zero = tuple((i, a, tuple((n, 1.0 if n == "ground" else 0.0) for n, f in c)) for i, a, c in (A1, A2))
    for cls in ("ActionGlacierEvolutionDeltaH", "ActionGlacierEvolutionAreaScaling"):
        ctx.each("start", cls, start, ctx, cls, IDS, AREA, VOL, (A1, A2, A4), False)
        ctx.each("start", cls, start, ctx, cls, IDS, AREA, VOL, zero, True)
        ctx.each("start", cls, start, ctx, cls, (2, 5, 9), AREA3, VOL3, (A1, A2, A3), False)
    for f in (delta_h, scaling):
        for ids, area, vol, rows in ((IDS, AREA, VOL, (A1, A2, A4)), ((2, 5, 9), AREA3, VOL3, (A1, A2, A3)), (IDS, AREA[:1] + AREA[-1:], VOL[:1] + VOL[-1:], (A1, A2, A4))):
            ls = loss(area, vol, ids) if len(area) > 1 else [[F(1)] * len(ids), [F(1, 2)] * len(ids)]
            if len(ids) == 3:
                ls = [l[:2] + [F(0)] for l in ls]
            seqs = [[l] for l in ls] + [[ls[i], ls[j]] for i, j in ((3, 5), (5, 3), (4, 2), (6, 4), (1, 5)) if max(i, j) < len(ls)]
            ctx.each("evolution", f.__name__, f, ctx, ids, area, vol, rows, seqs)
    ctx.each("snow to ice", "", to_ice, ctx)
