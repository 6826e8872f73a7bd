"""C06: changing a land cover area keeps the water and a full set of fractions.

Units with several covers (with snowpacks, canopies, ice) are put together as the package does
and every store gets an unknown content. Changes of the fraction of each cover, one after the
other, are evaluated; what the unit holds of water, snow and ice (depth times fraction, summed)
is compared before and after as an exact expression in the unknown contents."""
from fractions import Fraction
from .. import vals as V
from ..vals import mk, num, nat, TRUE, FALSE
from ..scene import judge, nm
from ..bench import Missing
from ..stores import TYPES
from ..structures import Built
from ..runs import constant
from ..ir import Broken

ASSUMPTIONS = ["The ice of a shrinking glacier is left to the glacier evolution (as documented in the code); stores without end are not counted.",
               "Fractions are taken from a grid, contents are unknown; a change smaller than the tolerance of the code is not looked at.",
               "Every cover has the snowpack its structure generates."]

F = Fraction
# per structure: starting fractions, and for each changed cover the new fractions that are
# tried besides those derived from the start
STARTS = {"covers": [(F(1, 2), F(1, 4), F(1, 4)), (F(1, 4), F(3, 4), F(0)), (F(0), F(3, 4), F(1, 4)), (F(1), F(0), F(0))],
          "ground": [(F(1, 4), F(1, 2), F(1, 4)), (F(0), F(3, 4), F(1, 4)), (F(5, 8), F(0), F(3, 8))],
          "no-ground": [(F(1, 4), F(3, 4))]}
GENERIC = {"covers": "open", "ground": "ground", "no-ground": None}


class Scene:
    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        self.b = b = Built(ctx, name, log_all=False)
        self.w = w = b.w
        w.named_finite = True
        r = b.initialize()
        if not b.clean or w.isok(r) is not TRUE:
            raise Broken("the structure %s cannot be initialised in the analysis" % name)
        self.unit = b.units()[0]
        self.at = w.at(self.unit, "ChangeLandCoverAreaFraction")
        self.covers, self.stores = [], []
        for x in b.bricks(self.unit):
            n = b.nm(x)
            if b.p.is_a(w.exact[x], "LandCover"):
                self.covers.append((n, x))
        for x in b.bricks(self.unit):
            n = b.nm(x)
            own = [c for c in self.covers if c[1] is x or (b.p.is_a(w.exact[x], "SurfaceComponent") and w.m(x, "GetParent") is c[1])]
            for k, get, en in TYPES:
                try:
                    c = w.m(x, get)
                except Missing:
                    continue
                if w.exact.get(c) is None:
                    raise Broken("a store of %s is not known" % n)
                if w.m(c, "IsInfiniteStorage") is not FALSE:
                    continue
                self.stores.append((own[0][0] if own else None, n, k, c))
        names = [n for n, x in self.covers]
        spec = [n for n, f in b_spec(name)]
        if sorted(names) != sorted(spec):
            raise Broken("the covers of the unit are %s" % names)
        self.facts = []
        for own, n, k, c in self.stores:
            x = nm("%s %s" % (n, k))
            self.facts.append(x > 1)
            w.m(c, "UpdateContent", x.v)
        if not b.clean:
            raise V.Unknown("contents")
        self.s0 = b.snap()

    def start(self, fs):
        self.b.back(self.s0)
        for n, f in zip([n for n, x in b_spec(self.name)], fs):
            self.w.m(self.cover(n), "SetAreaFraction", num(f))
        if not self.b.clean:
            raise V.Unknown("fractions")

    def cover(self, n):
        return dict(self.covers)[n]

    def fractions(self):
        return {n: self.w.m(x, "GetAreaFraction") for n, x in self.covers}

    def contents(self):
        return [self.w.m(c, "GetContentWithoutChanges") for own, n, k, c in self.stores]

    def totals(self, fr, but=None):
        out = {}
        for (own, n, k, c), v in zip(self.stores, self.contents()):
            if k == "ice" and own == but:
                continue
            out[k] = V.add(out.get(k, num(0)), V.mul(v, fr[own]) if own else v)
        return out


def b_spec(name):
    from ..structures import MORE
    return MORE[name]["units"][0]["covers"]


def eq(a, b, facts):
    """True/False/None"""
    if a is b:
        return True
    r = judge(b, a, facts)[0]
    return {"held": True, "violated": False}.get(r)


def news(s, fs, cover):
    names = [n for n, x in b_spec(s.name)]
    f = dict(zip(names, fs))
    g = GENERIC[s.name]
    top = f[cover] + (f[g] if g and g != cover else 0)
    out = {F(0), f[cover], f[cover] / 2, F(1), top, (f[cover] + top) / 2, top + F(1, 8), F(-1, 8), F(9, 8), F(1, 3)}
    return sorted(out)


def change(ctx, s, what, cover, x, do=None):
    """one change from the present state; gives whether it was followed"""
    w = s.w
    g = GENERIC[s.name]
    fr = s.fractions()
    f = {n: constant(v) for n, v in fr.items()}
    if any(v is None for v in f.values()):
        ctx.und("change", s.at, "%s: the fractions before are not known" % what)
        return False
    before = s.contents()
    shrinks = x < f[cover]
    t0 = s.totals(fr, cover if shrinks else None)
    snap = s.b.snap()
    r = do(x) if do else w.m(s.unit, "ChangeLandCoverAreaFraction", V.string(cover), num(x))
    threw = s.w.escaped()
    if w.st.pc is V.FALSE or any(e for e in threw):
        r = FALSE
        if not (w.st.pc is V.FALSE):
            ctx.und("change", s.at, "%s: it is not known whether it throws" % what)
            return False
        # the state at the throw is not kept by the evaluator
        ctx.und("refused", s.at, "%s: thrown" % what)
        return False
    if r not in (TRUE, FALSE):
        ctx.und("change", s.at, "%s: the outcome is not known: %s" % (what, V.show(r)[:100]))
        return False
    fr2 = s.fractions()
    f2 = {n: constant(v) for n, v in fr2.items()}
    if any(v is None for v in f2.values()):
        ctx.und("fractions", s.at, "%s: the fractions after are not known" % what)
        return False
    possible = 0 <= x <= 1 and (x == f[cover] or (g is not None and g != cover and x - f[cover] <= f[g]))
    if r is FALSE:
        ctx.check(f2 == f and all(a is b or eq(a, b, s.facts) for a, b in zip(before, s.contents())), "refused", what + " refused", s.at,
                  "%s is refused but leaves the fractions %s and contents changed" % (what, show(f2)))
        ctx.check(not possible, "done", what + " done", s.at, "%s is refused although it can be made up for" % what)
        return True
    if not possible and cover != g:
        ctx.bad("refused", what + " refused", s.at, "%s is not refused; the fractions are then %s" % (what, show(f2)))
        return True
    if cover != g:
        ctx.check(f2[cover] == x, "done", what + " done", s.at, "%s leaves the fraction %s" % (what, f2[cover]))
    ctx.check(sum(f2.values()) == 1 and all(0 <= v <= 1 for v in f2.values()), "fractions", what + " fractions", s.at,
              "after %s the fractions are %s" % (what, show(f2)))
    t1 = s.totals(fr2, cover if shrinks else None)
    for k in t0:
        ctx.check(eq(t0[k], t1[k], s.facts), "kept", "%s %s" % (what, k), s.at, "%s changes the %s over the unit from %s to %s" % (what, k, V.show(t0[k])[:300], V.show(t1[k])[:300]))
    return True


def show(f):
    return ", ".join("%s %s" % (n, float(v)) for n, v in sorted(f.items()))


def grid(ctx, name):
    s = Scene(ctx, name)
    for fs in STARTS[name]:
        for n, x in s.covers:
            for x in news(s, fs, n):
                s.start(fs)
                what = "%s: setting %s to %s with %s" % (name, n, float(x), show(dict(zip([a for a, b in b_spec(name)], fs))))
                if not change(ctx, s, what, n, x):
                    continue
    # unknown covers
    s.start(STARTS[name][0])
    f0, c0 = s.fractions(), s.contents()
    r = s.w.m(s.unit, "ChangeLandCoverAreaFraction", V.string("no such cover"), num(F(1, 4)))
    if s.b.clean:
        ctx.check(None if r not in (TRUE, FALSE) else r is FALSE and s.fractions() == f0 and s.contents() == c0, "refused", "%s unknown cover" % name, s.at, "a change of an unknown land cover is not refused")


SEQUENCES = {"covers": [[("glacier", F(0)), ("glacier", F(1, 4)), ("forest", F(3, 8))], [("forest", F(3, 4)), ("forest", F(1, 8)), ("glacier", F(1, 2))],
                        [("glacier", F(3, 4)), ("forest", F(0)), ("open", F(1, 2)), ("glacier", F(1, 8)), ("forest", F(1, 2))]],
             "ground": [[("debris", F(3, 4)), ("glacier", F(0)), ("glacier", F(1, 8))], [("glacier", F(3, 8)), ("ground", F(1)), ("debris", F(0)), ("debris", F(1, 2))]]}


def sequences(ctx, name):
    s = Scene(ctx, name)
    for q in SEQUENCES[name]:
        s.start(STARTS[name][0])
        done = []
        for n, x in q:
            what = "%s: setting %s to %s after %s" % (name, n, float(x), ", ".join("%s %s" % (a, float(b)) for a, b in done) or "nothing")
            if not change(ctx, s, what, n, x):
                break
            done.append((n, x))


def actions(ctx, name):
    """changes through dated actions: the area over the area of the unit is the fraction"""
    s = Scene(ctx, name)
    w, b = s.w, s.b
    area = constant(w.m(s.unit, "GetArea"))
    for fs in STARTS[name][:1]:
        for n, x in s.covers:
            for x in [v for v in news(s, fs, n) if 0 <= v <= 1]:
                s.start(fs)

                def do(v):
                    a = w.new("ActionLandCoverChange")
                    w.m(a, "AddChange", num(58850), num(b.uid(s.unit)), V.string(n), num(v * area))
                    w.m(b.model, "AddAction", a)
                    return w.m(a, "Apply", num(58850))
                change(ctx, s, "%s: an action giving %s the area %s with %s" % (name, n, float(x * area), show(dict(zip([a for a, c in b_spec(name)], fs)))), n, x, do)


def run(ctx):
    ctx.rule("kept", "water, snow and ice over the unit are the same before and after a change of fractions")
    ctx.rule("fractions", "after a change the fractions sum to one and are within 0 and 1")
    ctx.rule("refused", "a change that cannot be made up for, or of an unknown cover, is refused and changes nothing")
    ctx.rule("done", "a change that can be made up for is made")
    for n in STARTS:
        ctx.each("kept", "%s" % n, grid, ctx, n)
        if n in SEQUENCES:
            ctx.each("kept", "%s sequences" % n, sequences, ctx, n)
            ctx.each("kept", "%s actions" % n, actions, ctx, n)
