"""Whole runs of a built model in which the work of a time step is left out: what a run makes
of its clock, forcing, records and actions around its steps."""
import re
from . import vals as V
from .vals import mk, num, nat, TRUE, FALSE
from .vn import Tries
from .ir import strip_ty
from .scene import tainted


class Stop(Exception):
    """the run goes on past any reasonable number of steps"""


class Trace:
    """events of one run: ("step", index), ("change", unit, cover, fraction), ("parameter", name)"""

    def __init__(self, b, fail=None, how="false", limit=200, changes=None, touch=False, before=None, during=None):
        self.before, self.during = before, during      # called with the number of each step, before and after its values are set
        self.touch = touch            # leave a forcing of each kind overwritten in every step
        self.advances = 0
        self.b, self.fail, self.how, self.limit = b, fail, how, limit
        self.steps, self.events, self.written = [], [], None
        self.changes = changes        # None: changes of cover areas are taken note of, not made
        self.result = self.after = None
        self.forcings = [(b.uid(u), o) for u in b.units() for pth, o in b.walk(u, owned=True) if b.w.exact.get(o) == "Forcing"]
        self.kinds = [b.w.m(o, "GetType").a[0].rsplit("::", 1)[-1] for i, o in self.forcings]
        self.slots = pointed(b)

    def call(self, ev, e, n, recv, args, tgt):
        b, w = self.b, self.b.w
        if n.endswith("Processor::ProcessTimeStep"):
            k = len(self.steps) + 1
            if k > self.limit:
                raise Stop()
            self.events.append(("step", k))
            if self.before:
                self.before(k)
            self.steps.append({"date": w.m(b.timer, "GetDate"), "step": args[0] if args else None,
                               "forcing": [w.m(o, "GetValue") for i, o in self.forcings],
                               "fractions": fractions(b)})
            if self.touch:
                for j, (i, o) in enumerate(self.forcings):
                    w.m(o, "UpdateValue", nat(("name", "overwritten %d in step %d" % (j, k))))
            for i, l in enumerate(self.slots):
                w.st.s[l] = nat(("name", "value %d of step %d" % (i, k)))
            if self.during:
                self.during(k)
            if k == self.fail and self.how in ("throw", "false"):
                if self.how == "throw":
                    w.e_throw({"ty": "RuntimeError", "l": e.get("l")})
                return FALSE
            return TRUE
        if n.endswith("::AdvanceOneTimeStep") and len(self.steps) == self.fail and self.how in ("advance", "advance throw"):
            self.advances += 1
            if self.advances == 1:
                if self.how == "advance throw":
                    w.e_throw({"ty": "RuntimeError", "l": e.get("l")})
                return FALSE
        if n.endswith("HydroUnit::ChangeLandCoverAreaFraction"):
            self.events.append(("change", b.uid(recv), args[0].a[0] if args[0].k == "str" else V.show(args[0]), args[1], len(self.steps)))
            return TRUE if self.changes is None else None
        if n.endswith("Parameter::UpdateFromModifier"):
            self.events.append(("parameter", b.text(recv, "GetName"), args[0], len(self.steps)))
            return TRUE
        if n.endswith("::WriteNetCDF"):
            self.written = [w.load(a, "obj") if a.k == "loc" else a for a in args]
            return TRUE
        return None

    def hooked(self):
        """take note of events from here; gives the way back"""
        w = self.b.w
        old, h = w.hooks, w.hooks.get("call")

        def call(*a):
            r = self.call(*a)
            return r if r is not None else h(*a) if h else None
        w.hooks = dict(w.hooks, call=call)
        return old

    def run(self, dump=True):
        b, w = self.b, self.b.w
        old = self.hooked()
        try:
            w.tries.append(Tries())
            self.result = w.m(b.model, "Run")
            got = w.tries.pop()
            thrown = [x for x in got if w.throws[x[2]] is not None]
            self.thrown = len(thrown)
            self.ok = w.isok(self.result) if w.st.pc is not FALSE else FALSE
            if thrown:
                # the state the caller finds after the exception
                w.st = thrown[0][0]
                for x in thrown:
                    w.throws[x[2]] = None
            if dump and not thrown:
                w.m(b.model, "DumpOutputs", V.string("folder"))
        finally:
            w.hooks = old
        return self


def pointed(b):
    """the numbers that recording reads, in the order of the logger's lists"""
    w, out = b.w, []
    for f in b.fields(b.logger):
        v = w.st.s.get(mk("loc", "f", b.logger, f["q"]))
        todo = [v] if v is not None else []
        while todo:
            x = todo.pop(0)
            if x.k == "vec":
                todo = list(x.a) + todo
            elif x.k == "addr" and x.a[0] not in out:
                out.append(x.a[0])
    return out


def fractions(b):
    w = b.w
    return {(b.uid(u), b.nm(o)): w.m(o, "GetAreaFraction") for u in b.units() for o in b.bricks(u) if w.p.is_a(w.exact[o], "LandCover")}


def constant(v):
    return V.p_constval(v.a[0]) if v is not None and v.k == "num" and V.p_isconst(v.a[0]) else None


def flat(v):
    if v.k == "vec":
        return [y for x in v.a for y in flat(x)]
    return [v]


def same(v, want):
    """whether v is the wanted value: True, False, or None when v is not known"""
    if v is want:
        return True
    if v.k == "num" and want.k == "num":
        d = V.p_add(v.a[0], V.p_scale(want.a[0], -1))
        if V.p_isconst(d):
            return V.p_constval(d) == 0
    if tainted(v):
        return None
    if v.k in ("num", "str", "bool", "enum", "uninit", "vec") and want.k in ("num", "str", "bool", "enum", "vec"):
        return False
    return None


class Records:
    """what a run wrote down: dates, and per step the cells by (list, label, unit)"""

    def __init__(self, written):
        (self.path, self.time, self.ids, self.structures, self.areas, self.blabels, self.bvalues,
         self.ulabels, self.uvalues, self.flabels, self.fvalues) = written
        self.dates = list(self.time.a)
        self.cells = {}
        for li, v in enumerate(self.bvalues.a):
            for t, x in enumerate(v.a):
                self.cells[("basin", li, 0, t)] = x
        for what, vs in (("unit", self.uvalues), ("fraction", self.fvalues)):
            for li, v in enumerate(vs.a):
                for t, row in enumerate(v.a):
                    for u, x in enumerate(row.a):
                        self.cells[(what, li, u, t)] = x

    def label(self, key):
        ls = {"basin": self.blabels, "unit": self.ulabels, "fraction": self.flabels}[key[0]]
        s = V.show(ls.a[key[1]]).strip("'")
        return s if key[0] == "basin" else "%s of unit %s" % (s, V.show(self.ids.a[key[2]]))


def value_of(x):
    """(slot, step) of a recorded value, or None"""
    m = re.fullmatch(r"value (\d+) of step (\d+)", V.show(x)) if x.k == "num" else None
    return (int(m.group(1)), int(m.group(2))) if m else None
