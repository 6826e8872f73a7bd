"""C03: spin-up leaves only warmed-up storages behind.

Runs with a spin-up are evaluated as in C04, with the work inside a time step left out. The
steps before the recorded simulation must take the first part of the forcing, record nothing
and apply nothing; the recorded part must be that of a run without spin-up, except for what
the stores and processes hold."""
from fractions import Fraction
from .. import vals as V
from ..vals import mk, num, nat, TRUE, FALSE
from ..bench import Missing
from ..runs import Trace, pointed, fractions, Records, same, value_of, constant
from ..ir import Broken, strip_ty
from .c04 import Case, records, forced

ASSUMPTIONS = ["A spin-up longer than the period is shortened to the period; the length in steps is rounded down.",
               "The run loop does not depend on what a time step computes, only on whether it succeeds; a handful of periods, time steps and spin-up lengths stand for all."]

# the run, days of spin-up, steps of spin-up
RUNS = [(("gr4j", 1, "day", 5, 0, True), 3, 3), (("socont-plain", 1, "day", 3, 0, True), 10, 3), (("gr4j", 6, "hour", 6, 0, True), 1, 4),
        (("socont-plain", 2, "day", 4, 0, False), 3, 1), (("socont-plain", 1, "day", 1, 0, True), 1, 1), (("socont", 1, "day", 4, 0, True), 2, 2)]


class Warm(Case):
    def __init__(self, ctx, row, days):
        super().__init__(ctx, row, spinup=days)
        self.title += ", %d days of spin-up" % days
        self.b.back(self.s0)
        self.schedule()
        self.s0 = self.b.snap()

    def schedule(self):
        """changes of a land cover during the first steps and a parameter that changes with time"""
        b, w = self.b, self.w
        self.dated = []
        cls = "ActionLandCoverChange"
        if w.p.cls.get(cls):
            uid = b.uid(b.units()[0])
            for at in (1, Fraction(3, 2), 2):
                if at > self.n:
                    continue
                a = w.new(cls)
                w.m(a, "AddChange", num(self.start + at * self.dt), num(uid), V.string("open"), num(1))
                w.m(b.model, "AddAction", a)
                self.dated.append(at)
        try:
            up = b.part("ParametersUpdater")
        except Missing:
            return
        m = w.new("ParameterModifier", mk("enum", "ParameterModifierType::Dates"))
        self.par = w.new("Parameter", V.string("changing"), num(1))
        w.m(self.par, "SetModifier", m)
        w.m(up, "AddParameter", self.par)


def held(b):
    """what stores and processes hold: (owner, member) -> value"""
    w, out = b.w, {}
    for i, br, pr in list(b.everything()):
        for pth, o in b.walk(br, owned=True):
            c = w.exact.get(o)
            if c and (w.p.is_a(c, "WaterContainer") or w.p.is_a(c, "Process")):
                for f in b.fields(o):
                    ty = strip_ty(f["ty"])
                    if ty in ("double", "axd", "vecDouble") or ty.startswith("std::vector<double"):
                        l = mk("loc", "f", o, f["q"])
                        if l in w.st.s:
                            out[l] = ("%s of unit %d: %s" % (b.nm(br), i, f["q"]), w.st.s[l])
    return out


def warmed(ctx, row, days, k):
    c = Warm(ctx, row, days)
    ti, at, b, w = c.title, w_at(c), c.b, c.w
    ctx.check(not c.refused, "length", "%s forcing" % ti, at, "%s: complete forcing is refused" % ti)
    kept, slots = {}, pointed(b)

    def during(step):
        if step == k:
            for j, (i, br, pr) in enumerate(b.everything()):
                for pth, o in b.walk(br, owned=True):
                    if w.exact.get(o) and w.p.is_a(w.exact[o], "WaterContainer"):
                        for f in b.fields(o):
                            l = mk("loc", "f", o, f["q"])
                            if f["q"].endswith("_content") and l in w.st.s and l not in slots:
                                w.st.s[l] = nat(("name", "warm %d" % j))
            kept.update(held(b))

    def before(step):
        if step == k + 1:
            now = held(b)
            for l, (name, v) in kept.items():
                ctx.check(same(now[l][1], v) if l in now else None,
                          "warm", "%s warm %s" % (ti, name), at, "%s: %s is not kept over the end of the spin-up" % (ti, name))
    t = c.trace(touch=True, before=before, during=during)
    if not b.clean:
        ctx.und("length", at, "%s: the run was not followed to its end: %s" % (ti, w.notes[:2]))
        return
    ctx.check(None if t.ok not in (TRUE, FALSE) else t.ok is TRUE, "length", "%s result" % ti, at, "%s: a run without failure is not reported as successful" % ti)
    ctx.check(len(t.steps) == c.n + k, "length", "%s count" % ti, at, "%s: the run makes %d time steps instead of %d for warming up and %d for the period" % (ti, len(t.steps), k, c.n))
    for s, x in enumerate(t.steps[:c.n + k]):
        r = s - k if s >= k else s
        part = "step %d" % (r + 1) if s >= k else "spin-up step %d" % (r + 1)
        ctx.check(same(x["date"], num(c.start + r * c.dt)), "rewind" if s >= k else "length", "%s clock %d" % (ti, s), at, "%s: %s is computed at date %s instead of %s" % (ti, part, V.show(x["date"]), V.show(num(c.start + r * c.dt))))
        for j, v in enumerate(x["forcing"]):
            want = forced(c, t, r, None, j)
            ctx.check(same(v, want), "rewind" if s >= k else "length", "%s forcing %d %d" % (ti, s, j), at, "%s: %s of unit %d in %s is %s instead of %s" % (ti, t.kinds[j], t.forcings[j][0], part, V.show(v)[:80], V.show(want)))
    for e in t.events:
        if e[0] == "change":
            ctx.check(e[4] > k, "nothing", "%s change %d" % (ti, e[4]), at, "%s: the area of %s of unit %d is changed in spin-up step %d" % (ti, e[2], e[1], e[4]))
        if e[0] == "parameter":
            ctx.check(e[3] > k, "nothing", "%s parameter %d" % (ti, e[3]), at, "%s: a parameter is changed in spin-up step %d" % (ti, e[3]))
    if t.written is None or len(t.written) != 11:
        ctx.und("nothing", at, "%s: the records handed to the writer were not recognised" % ti)
    else:
        records(ctx, c, t, c.n, k)
    initial(ctx, c, k)
    plain(ctx, c, row, t, k)


def w_at(c):
    return c.w.at(c.b.model, "Run")


def initial(ctx, c, k):
    """the state that storage changes are counted from is that after the warming up"""
    b, w = c.b, c.w
    for g in ("GetTotalWaterStorageChanges", "GetTotalSnowStorageChanges"):
        v = w.m(b.model, g)
        steps = {int(x.rsplit(" ", 1)[-1].rstrip(")")) for x in named(v)}
        ctx.check(None if v.k != "num" else steps <= {k, k + c.n, k + 1} and (not steps or k in steps), "nothing", "%s %s" % (c.title, g), w.at(b.model, g),
                  "%s: the storage changes of the period are made of the values of the steps %s instead of the last spin-up step (%d) and the last step (%d)" % (c.title, sorted(steps), k, k + c.n))


def named(v):
    import re
    return re.findall(r"value \d+ of step \d+", V.show(v))


def plain(ctx, c, row, t, k):
    """the events of the recorded part are those of a run without spin-up"""
    d = Warm(ctx, row, 0)
    u = d.trace(touch=True)
    if not d.b.clean:
        return

    def later(t, k):
        return [e[:-1] + (e[-1] - k,) for e in t.events if e[0] in ("change", "parameter")]
    a, b = later(t, k), later(u, 0)
    ctx.check(len([e for e in a if e[-1] > 0]) == len(a) and [(e[0], e[1], V.show(e[2]) if isinstance(e[2], V.V) else e[2], e[-1]) for e in a] == [(e[0], e[1], V.show(e[2]) if isinstance(e[2], V.V) else e[2], e[-1]) for e in b],
              "again", "%s again" % c.title, w_at(c), "%s: the actions and parameter changes of the recorded part (%d, in steps %s) are not those of a run without spin-up (%d, in steps %s)" % (
                  c.title, len(a), [e[-1] for e in a][:12], len(b), [e[-1] for e in b][:12]))
    ctx.check(len([e for e in b if e[0] == "change"]) == len([x for x in d.dated if x <= d.n]), "again", "%s without" % c.title, w_at(c), "%s: without spin-up %d of %d actions are applied" % (c.title, len([e for e in b if e[0] == "change"]), len(d.dated)))


def failing(ctx, how, at_step):
    row, days, k = RUNS[0]
    c = Warm(ctx, row, days)
    ti, at, b, w = c.title, w_at(c), c.b, c.w
    t = c.trace(fail=at_step, how=how)
    name = {"false": "a spin-up step that fails", "throw": "a spin-up step that ends with an error", "advance": "a series that ends during the spin-up", "advance throw": "a series that ends with an error during the spin-up"}[how]
    if len(t.steps) < at_step or how.startswith("advance") and not t.advances:
        ctx.und("failure", at, "%s: the failure was not reached" % ti)
        return
    ctx.check(None if t.ok not in (TRUE, FALSE) else t.ok is FALSE or t.thrown > 0, "failure", "%s %s told" % (ti, how), at, "%s: %s (step %d) is reported as success" % (ti, name, at_step))
    ctx.check(len(t.steps) == at_step, "failure", "%s %s stop" % (ti, how), at, "%s: after %s (step %d) the run goes on" % (ti, name, at_step))
    if how in ("false", "throw"):
        records(ctx, c, t, 0, k) if t.written is not None and len(t.written) == 11 else None
    # an advance of the clock applies them
    s0, seen = b.snap(), len(t.events)
    old = t.hooked()
    try:
        for k2 in range(3):
            w.m(b.timer, "IncrementTime")
    finally:
        w.hooks = old
    for kind, name2 in (("change", "actions"), ("parameter", "parameter changes")):
        have = any(e[0] == kind for e in t.events[seen:])
        ctx.check(None if w.st.pc is not TRUE and not have else have, "failure", "%s %s %s active" % (ti, how, kind), at, "%s: after %s, the %s are not active any more" % (ti, name, name2))
    b.back(s0)
    # the model is run again after a reset
    c.w.m(c.b.model, "Reset")
    u = Trace(c.b, touch=True).run()
    if not c.b.clean:
        ctx.und("failure", at, "%s: the run after the failure was not followed" % ti)
        return
    plain(ctx, c, row, u, k)
    ctx.check(len(u.steps) == c.n + k and u.ok is TRUE, "failure", "%s %s again" % (ti, how), at, "%s: after %s, a reset and a new run make %d steps" % (ti, name, len(u.steps)))


def areas(ctx):
    """fractions that were changed while warming up are the initial ones in the first step"""
    row, days, k = RUNS[-1]
    c = Warm(ctx, row, days)
    b, w = c.b, c.w
    ti, at = c.title, w_at(c)
    before = None

    def early(step):
        if step == 1:
            for u in b.units():
                covers = [o for o in b.bricks(u) if w.p.is_a(w.exact[o], "LandCover")]
                for o in covers:
                    fr = constant(w.m(o, "GetAreaFraction"))
                    if len(covers) > 1 and "open" not in b.nm(o) and fr:
                        w.m(u, "ChangeLandCoverAreaFraction", V.string(b.nm(o)), num(fr / 2))
                        break
    t = Trace(b, before=early, changes=True)
    t.slots = []
    before = fractions(b)
    t.run()
    if not b.clean or len(t.steps) <= k:
        ctx.und("areas", at, "the run was not followed: %s %s %s" % (len(t.steps), w.escaped()[:2], V.show(w.st.pc)[:300]))
        return
    changed = [x for x in before if same(t.steps[1]["fractions"][x], before[x]) is False]
    if not changed:
        ctx.und("areas", at, "no fraction was changed")
    for x in changed:
        ctx.check(same(t.steps[k]["fractions"][x], before[x]), "areas", "%s %s" % (ti, x), at, "%s: the fraction of %s of unit %d, changed while warming up, is %s in the first recorded step instead of %s" % (ti, x[1], x[0], V.show(t.steps[k]["fractions"][x]), V.show(before[x])))


def run(ctx):
    ctx.rule("length", "the spin-up makes as many steps as fit in it, at most those of the period, from the start of the period and with its forcing")
    ctx.rule("nothing", "no value is recorded and no action or parameter change is made while warming up; storage changes are counted from its end")
    ctx.rule("rewind", "the recorded simulation starts at the first date with the first record of every forcing")
    ctx.rule("warm", "what stores and processes hold is kept over the end of the spin-up")
    ctx.rule("areas", "the land cover fractions are the initial ones in the first recorded step")
    ctx.rule("again", "actions and parameter changes of the recorded part are those of a run without spin-up, also after a failed spin-up")
    ctx.rule("records", "the results hold each step's values exactly once, in its row and under its date")
    ctx.rule("failure", "a spin-up that fails is reported; after a reset the model runs as if it had not failed")
    for row, days, k in RUNS:
        ctx.each("length", "%s %s" % (row, days), warmed, ctx, row, days, k)
    ctx.each("areas", "socont", areas, ctx)
    for how in ("false", "throw", "advance", "advance throw"):
        ctx.each("failure", how, failing, ctx, how, 2)
