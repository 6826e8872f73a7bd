"""C17: the results file holds what was recorded, where its reader looks for it.

The writer's own code is evaluated down to the calls of the netCDF library, on lists of unknown
numbers of several sizes, and the file these calls leave is compared, element by element, with
what was to be recorded; the same for the files that whole runs write. The reader's source is
analysed against that file: every variable, attribute and dimension it names, the label list
from which it takes the place in a variable, and the dimension over which it averages."""
import ast, os
from .. import vals as V
from ..vals import mk, num, nat, TRUE, FALSE
from ..model import World
from ..ncfile import File, hook
from ..runs import Trace, Records, constant
from ..ir import Broken, REPO
from .c04 import Case

ASSUMPTIONS = ["The netCDF library does what its documentation says (the last dimension varies fastest); a matrix of the linear algebra library is stored by columns, its default.",
               "The reader's library (xarray) presents variables with the dimensions of the file and combines them by the names of the dimensions.",
               "Lists of up to four items stand for all sizes."]
LAYOUT = {"time": ("time",), "hydro_units_ids": ("hydro_units",), "hydro_units_structure_ids": ("hydro_units",), "hydro_units_areas": ("hydro_units",),
          "sub_basin_values": ("aggregated_values", "time"), "hydro_units_values": ("distributed_values", "hydro_units", "time"),
          "land_cover_fractions": ("land_covers", "hydro_units", "time")}
LABELS = {"labels_aggregated": "aggregated_values", "labels_distributed": "distributed_values", "labels_land_covers": "land_covers"}
INTEGERS = ("hydro_units_ids", "hydro_units_structure_ids")
SIZES = [(3, 2, 2, 1, 1), (2, 3, 1, 2, 2), (1, 4, 3, 3, 3), (4, 1, 0, 2, 2), (3, 2, 2, 0, 1), (3, 3, 3, 3, 3), (2, 2, 1, 1, 0), (4, 3, 1, 2, 0), (2, 3, 0, 0, 0)]
READER = "python/src/hydrobricks/results.py"


def vec(xs):
    return mk("vec", *xs)


def given(sizes):
    """what is to be recorded: lists of values of their own"""
    t, u, a, d, l = sizes
    n = lambda *k: nat(("name", " ".join(map(str, k))))
    return [vec([n("date", i) for i in range(t)]), vec([n("identifier", i) for i in range(u)]), vec([n("structure", i) for i in range(u)]), vec([n("area", i) for i in range(u)]),
            vec([V.string("basin item %d" % i) for i in range(a)]), vec([vec([n("basin", i, k) for k in range(t)]) for i in range(a)]),
            vec([V.string("item %d" % i) for i in range(d)]), vec([vec([vec([n("value", i, k, j) for j in range(u)]) for k in range(t)]) for i in range(d)]),
            vec([V.string("cover %d" % i) for i in range(l)]), vec([vec([vec([n("fraction", i, k, j) for j in range(u)]) for k in range(t)]) for i in range(l)])]


def compare(ctx, f, r, where, key):
    """a written file with what was recorded"""
    t, u = len(r.dates), len(r.ids.a)
    want = {"time": {(k,): x for k, x in enumerate(r.dates)}, "hydro_units_ids": {(k,): x for k, x in enumerate(r.ids.a)},
            "hydro_units_structure_ids": {(k,): x for k, x in enumerate(r.structures.a)}, "hydro_units_areas": {(k,): x for k, x in enumerate(r.areas.a)},
            "sub_basin_values": {}, "hydro_units_values": {}, "land_cover_fractions": {}}
    for (what, li, ui, ti), x in r.cells.items():
        if what == "basin":
            want["sub_basin_values"][(li, ti)] = x
        else:
            want["hydro_units_values" if what == "unit" else "land_cover_fractions"][(li, ui, ti)] = x
    sizes = {"time": t, "hydro_units": u, "aggregated_values": len(r.blabels.a), "distributed_values": len(r.ulabels.a), "land_covers": len(r.flabels.a)}
    ctx.check(not f.bad, "cells", key + " calls", where, "%s: %s" % (key, "; ".join(f.bad[:3])))
    there = {}
    for v in f.vars:
        ctx.check(v[0] not in there, "layout", "%s %s twice" % (key, v[0]), where, "%s: %s is defined twice" % (key, v[0]))
        there[v[0]] = v
    for name, dims in LAYOUT.items():
        if name == "land_cover_fractions" and not r.flabels.a:
            continue
        ti = "%s %s" % (key, name)
        v = there.get(name)
        if v is None:
            ctx.bad("layout", ti, where, "%s: there is no variable %s" % (key, name))
            continue
        ds = tuple(f.dims[d][0] for d in v[2])
        ctx.check(ds == dims, "layout", ti, where, "%s: %s has the dimensions %s instead of %s" % (key, name, ds, dims))
        ctx.check(v[1] == (4 if name in INTEGERS else 6), "layout", ti + " type", where, "%s: %s has the type %d of the library" % (key, name, v[1]))
        for d in v[2]:
            n, k = f.dims[d]
            ctx.check(n not in sizes or k == sizes[n], "layout", "%s size of %s" % (ti, n), where, "%s: the dimension %s has %d elements instead of %s" % (key, n, k, sizes.get(n)))
        if ds != dims:
            continue
        got, exp = v[3], want[name]
        wrong = [i for i in sorted(exp) if got.get(i) is not exp[i]]
        if wrong:
            i = wrong[0]
            ctx.bad("cells", ti, where, "%s: %s%s holds %s instead of %s (%d such elements)" % (key, name, list(i), V.show(got[i])[:60] if i in got else "nothing", V.show(exp[i])[:60], len(wrong)))
        else:
            ctx.ok("cells", where, ti)
        more = [i for i in got if i not in exp]
        ctx.check(not more, "cells", ti + " more", where, "%s: %s has elements that were not recorded: %s" % (key, name, more[:3]))
    for att, dim in LABELS.items():
        ls = {"labels_aggregated": r.blabels, "labels_distributed": r.ulabels, "labels_land_covers": r.flabels}[att]
        if att == "labels_land_covers" and not ls.a:
            continue
        got = f.atts.get((-1, att))
        ti = "%s %s" % (key, att)
        if got is None:
            ctx.bad("labels", ti, where, "%s: there is no attribute %s" % (key, att))
            continue
        ctx.check([V.show(x) for x in got] == [V.show(x) for x in ls.a], "labels", ti, where, "%s: %s is %s instead of %s" % (key, att, [V.show(x) for x in got][:4], [V.show(x) for x in ls.a][:4]))
    k = [i for i, v in enumerate(f.vars) if v[0] == "time"]
    u = f.atts.get((k[0], "units")) if k else None
    ctx.check(u is not None and u.lower().startswith("days since 1858-11-17"), "labels", key + " units of time", where, "%s: the dates, which are modified Julian dates, are said to be %s" % (key, u))


def direct(ctx, sizes):
    box = [None]
    w = World(ctx, hooks={"call": hook(box)})
    w.maxloop = 40
    f = File(w)
    box[0] = f
    fns = [x for x in ctx.prog.by_name.get("ResultWriter::WriteNetCDF", []) if x.get("body")]
    if len(fns) != 1:
        raise Broken("ResultWriter::WriteNetCDF not found")
    key = "%d dates, %d units, %d basin items, %d items, %d covers" % sizes
    where = ctx.at(fns[0])
    args = [V.string("folder")] + given(sizes)
    if len(args) != len(fns[0]["params"]):
        return                 # other parameters: the runs say what is written
    r = w.inline(fns[0], w.new("ResultWriter"), args)
    if f.unclear or r is not TRUE or not f.calls:
        if not f.unclear and (r is FALSE or w.throws):
            ctx.bad("cells", key + " refused", where, "%s: the results are not written" % key)
            return
        ctx.und("cells", where, "%s: %s %s" % (key, V.show(r)[:60], f.unclear[:2]))
        return
    compare(ctx, f, Records(args), where, key)


class Filed(Trace):
    """a run whose results go to a file"""
    file = None

    def call(self, ev, e, n, recv, args, tgt):
        if n.startswith("nc_"):
            return self.file.call(n, args)
        if n.startswith(("std::filesystem::is_directory", "std::filesystem::exists")):
            return TRUE
        if n.endswith("::WriteNetCDF"):
            return None
        return Trace.call(self, ev, e, n, recv, args, tgt)


def whole(ctx, row, spinup):
    c = Case(ctx, row, spinup=spinup)
    key = "the file of %s%s" % (c.title, " with spin-up" if spinup else "")
    b, w = c.b, c.w
    if c.refused:
        ctx.und("runs", c.at, "%s: forcing refused" % key)
        return
    w.maxloop = 200
    t = Filed(b)
    t.file = File(w)
    t.run(dump=True)
    where = w.at(b.logger, "DumpOutputs")
    f = t.file
    if f.unclear or not f.calls or t.thrown:
        ctx.und("runs", where, "%s: %s" % (key, f.unclear[:2]))
        return
    t.file = None
    t2 = Trace(b)
    old = t2.hooked()
    w.m(b.model, "DumpOutputs", V.string("folder"))
    w.hooks = old
    r = t2.written
    if r is None or len(r) != 11:
        ctx.und("runs", where, "%s: the recorded lists are not found" % key)
        return
    r = Records(r)
    ids = [b.uid(u) for u in b.units()]
    compare(ctx, f, r, where, key)
    there = {v[0]: v for v in f.vars}
    for name, exp in (("hydro_units_ids", [num(i) if isinstance(i, int) else i for i in ids]), ("hydro_units_areas", [w.m(u, "GetArea") for u in b.units()]), ("hydro_units_structure_ids", [w.m(u, "GetStructureId") for u in b.units()])):
        v = there.get(name)
        if v is None:
            continue
        got = [v[3].get((k,)) for k in range(len(exp))]
        good = len(v[3]) == len(exp) and all(V.show(x) == V.show(y) for x, y in zip(got, exp) if x is not None) and None not in got
        ctx.check(good, "runs", "%s %s" % (key, name), where, "%s: %s is %s instead of %s" % (key, name, [V.show(x)[:20] if x is not None else None for x in got], [V.show(x)[:20] for x in exp]))


# ---------------------------------------------------------------- the reader
KNOWN = {"attrs", "close", "dims", "coords", "data_vars", "sel", "isel", "sizes", "variables", "load", "compute", "to_dataframe"}


class Reader:
    """the dimensions of what the reader's expressions stand for"""

    def __init__(self, ctx, cls, path, layout):
        self.ctx, self.path, self.layout = ctx, path, layout
        self.m = {f.name: f for f in cls.body if isinstance(f, ast.FunctionDef)}
        self.lists = {}            # attribute of the reader -> attribute of the file
        self.n = 0

    def at(self, x, f=""):
        return "%s:%d (%s)" % (self.path, x.lineno, f or "Results")

    def dataset(self, x):
        return isinstance(x, ast.Attribute) and x.attr == "results" and isinstance(x.value, ast.Name) and x.value.id == "self"

    def variable(self, x):
        if isinstance(x, ast.Attribute) and self.dataset(x.value) and x.attr not in KNOWN:
            return x.attr
        if isinstance(x, ast.Subscript) and self.dataset(x.value) and isinstance(x.slice, ast.Constant):
            return x.slice.value
        return None

    def attribute(self, x):
        """the file attribute an expression fetches"""
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get" and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "attrs" and self.dataset(x.func.value.value):
            return x.args[0].value if x.args and isinstance(x.args[0], ast.Constant) else None
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == "attrs" and self.dataset(x.value.value) and isinstance(x.slice, ast.Constant):
            return x.slice.value
        return None

    def names(self):
        for f in self.m.values():
            for x in ast.walk(f):
                v, a = self.variable(x), self.attribute(x)
                if v is not None:
                    self.ctx.check(v in self.layout or v in {d for ds in self.layout.values() for d in ds}, "reader", "%s in %s" % (v, f.name), self.at(x, f.name), "%s: the reader looks for %s, which is not in the file" % (f.name, v))
                if a is not None:
                    self.ctx.check(a in LABELS, "reader", "%s in %s" % (a, f.name), self.at(x, f.name), "%s: the reader looks for the attribute %s, which is not in the file" % (f.name, a))
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and self.attribute(x.value) is not None:
                    t = x.targets[0] if isinstance(x, ast.Assign) else x.target
                    if isinstance(t, ast.Attribute):
                        self.lists[t.attr] = self.attribute(x.value)
        for f in self.m.values():
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr.startswith("labels") and isinstance(x.ctx, ast.Load):
                    self.ctx.check(x.attr in self.lists, "reader", "self.%s in %s" % (x.attr, f.name), self.at(x, f.name), "%s: self.%s was never taken from the file" % (f.name, x.attr))

    # the values: ("dims", names) | ("index", label list) | ("labels", list) | ("tuple", [..]) | None
    def method(self, f, args, depth=0):
        if depth > 6:
            return None
        ps = [a.arg for a in f.args.args]
        if ps and ps[0] == "self":
            ps = ps[1:]
        env = dict(zip(ps, args))
        for p, d in zip(ps[::-1], f.args.defaults[::-1]):
            env.setdefault(p, ("none",) if isinstance(d, ast.Constant) and d.value is None else None)
        return self.block(f.body, env, f, depth)

    def block(self, body, env, f, depth):
        out = None
        for s in body:
            if isinstance(s, ast.Return):
                v = self.ev(s.value, env, f, depth) if s.value is not None else None
                return v
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                v = self.ev(s.value, env, f, depth)
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Name):
                        env[t.id] = v
                    elif isinstance(t, ast.Tuple):
                        vs = v[1] if v and v[0] == "tuple" else [None] * len(t.elts)
                        for a, b in zip(t.elts, vs):
                            if isinstance(a, ast.Name):
                                env[a.id] = b
            elif isinstance(s, ast.If):
                cond = self.test(s.test, env)
                rs = []
                for part in ([s.body] if cond is True else [s.orelse] if cond is False else [s.body, s.orelse]):
                    rs.append(self.block(part, env, f, depth))
                rs = [r for r in rs if r is not None]
                if rs and (cond is not None or any(isinstance(x, ast.Return) for x in s.body)):
                    if out is None:
                        out = rs[0]
                    if cond is not None:
                        return rs[0]
            elif isinstance(s, ast.For):
                self.bind(s.target, s.iter, env, f, depth)
                r = self.block(s.body, env, f, depth)
                out = out or r
            elif isinstance(s, (ast.With, ast.Try)):
                r = self.block(s.body, env, f, depth)
                out = out or r
            elif isinstance(s, ast.Expr):
                x = s.value
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append" and isinstance(x.func.value, ast.Name) and x.args:
                    v = self.ev(x.args[0], env, f, depth)
                    if v and v[0] == "dims":
                        env[x.func.value.id] = ("list", v[1])
                else:
                    self.ev(x, env, f, depth)
        return out

    def bind(self, t, it, env, f, depth):
        v = self.ev(it, env, f, depth)
        if isinstance(t, ast.Name):
            env[t.id] = ("label", v[1]) if v and v[0] == "labels" else None

    def test(self, t, env):
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            v = env.get(t.left.id)
            if v in (("none",), ("given",)):
                is_none = v == ("none",)
                return is_none if isinstance(t.ops[0], ast.Is) else not is_none
        return None

    def ev(self, x, env, f, depth):
        v = self.variable(x)
        if v is not None:
            self.n += 1
            return ("dims", self.layout[v]) if v in self.layout else ("dims", (v,)) if v in {d for ds in self.layout.values() for d in ds} else None
        if self.attribute(x) is not None:
            return ("labels", self.attribute(x))
        if isinstance(x, ast.Name):
            return env.get(x.id)
        if isinstance(x, ast.Constant):
            return ("none",) if x.value is None else ("const", x.value)
        if isinstance(x, ast.Tuple):
            return ("tuple", [self.ev(y, env, f, depth) for y in x.elts])
        if isinstance(x, ast.List) and not x.elts:
            return None
        if isinstance(x, ast.Attribute):
            if isinstance(x.value, ast.Name) and x.value.id == "self" and x.attr in self.lists:
                return ("labels", self.lists[x.attr])
            return None
        if isinstance(x, ast.Subscript):
            return self.subscript(x, self.ev(x.value, env, f, depth), env, f, depth)
        if isinstance(x, ast.BinOp):
            a, b = self.ev(x.left, env, f, depth), self.ev(x.right, env, f, depth)
            if a and b and a[0] == b[0] == "dims":
                return ("dims", a[1] + tuple(d for d in b[1] if d not in a[1])) if a[1] != b[1] else a
            return a if a and a[0] == "dims" else b if b and b[0] == "dims" else None
        if isinstance(x, ast.IfExp):
            return self.ev(x.body, env, f, depth) or self.ev(x.orelse, env, f, depth)
        if isinstance(x, ast.Call):
            return self.called(x, env, f, depth)
        return None

    def subscript(self, x, v, env, f, depth):
        if not v or v[0] != "dims":
            if v and v[0] == "tuple" and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, int) and x.slice.value < len(v[1]):
                return v[1][x.slice.value]
            return None
        idx = x.slice.elts if isinstance(x.slice, ast.Tuple) else [x.slice]
        dims = list(v[1])
        where = self.at(x, f.name)
        self.ctx.check(len(idx) <= len(dims), "reader", "%s:%s count of places" % (f.name, ast.unparse(x)), where, "%s: %s takes %d places of %d dimensions" % (f.name, ast.unparse(x), len(idx), len(dims)))
        out = []
        for k, d in enumerate(dims):
            if k >= len(idx) or isinstance(idx[k], ast.Slice) or isinstance(idx[k], ast.Constant) and idx[k].value is Ellipsis:
                out.append(d)
                continue
            i = self.ev(idx[k], env, f, depth)
            if i and i[0] == "index":
                good = LABELS.get(i[1]) == d
                self.ctx.check(good, "reader", "%s:%s place" % (f.name, ast.unparse(x)), where, "%s: %s uses a place in the list %s along %s" % (f.name, ast.unparse(x), i[1], d))
        return ("dims", tuple(out))

    def called(self, x, env, f, depth):
        fn = x.func
        args = [self.ev(a, env, f, depth) for a in x.args if not isinstance(a, ast.Starred)]
        kws = {k.arg: self.ev(k.value, env, f, depth) for k in x.keywords}
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("self", "Results") and fn.attr in self.m:
            g = self.m[fn.attr]
            if fn.attr == "_area_weighted_nanmean":
                return self.mean(x, args, kws, f)
            ps = [a.arg for a in g.args.args if a.arg != "self"]
            for k, v in kws.items():
                if k in ps:
                    while len(args) <= ps.index(k):
                        args.append(None)
                    args[ps.index(k)] = v
            return self.method(g, args, depth + 1)
        if not isinstance(fn, ast.Attribute):
            return None
        v = self.ev(fn.value, env, f, depth)
        if fn.attr == "index" and v and v[0] == "labels":
            return ("index", v[1])
        if fn.attr in ("array", "asarray", "zeros_like", "nan_to_num", "stack", "ones_like") and args:
            if args[0] and args[0][0] == "list":
                return ("dims", ("land_covers",) + args[0][1])
            return args[0]
        if not v or v[0] != "dims":
            if fn.attr in ("list", "tolist") and v:
                return v
            return None
        if fn.attr in ("sel", "isel"):
            dims = v[1]
            for k in x.keywords:
                if k.arg in ("method", "drop", "tolerance"):
                    continue
                self.ctx.check(k.arg in dims, "reader", "%s:%s along" % (f.name, ast.unparse(x)[:60]), self.at(x, f.name), "%s: %s selects along %s, of %s" % (f.name, ast.unparse(x)[:60], k.arg, dims))
                if not (isinstance(k.value, ast.Call) and isinstance(k.value.func, ast.Name) and k.value.func.id == "slice"):
                    dims = tuple(d for d in dims if d != k.arg)
            return ("dims", dims)
        if fn.attr == "reshape" and x.args and len(v[1]) >= 2:
            a = x.args
            if isinstance(a[0], ast.UnaryOp) and len(a) == 2 and isinstance(a[1], ast.Starred) and ast.unparse(a[1].value).endswith(".shape[2:]"):
                return ("dims", ("%s and %s" % v[1][:2],) + v[1][2:])
            return None
        if fn.attr in ("to_numpy", "copy", "astype", "load", "compute"):
            return v
        if fn.attr in ("sum", "mean"):
            return self.mean(x, [v, v], kws, f)
        return None

    def mean(self, x, args, kws, f):
        ax = kws.get("axis") or (args[2] if len(args) > 2 else None)
        v = args[0]
        if not v or v[0] != "dims" or not ax or ax[0] != "const":
            return None
        w = args[1] if len(args) > 1 else None
        key = "%s:%s" % (f.name, ast.unparse(x)[:60])
        if w and w[0] == "dims":
            self.ctx.check(w[1] == v[1], "reader", key + " weights", self.at(x, f.name), "%s: values along %s are weighted by areas along %s" % (f.name, v[1], w[1]))
        k = ax[1]
        ok = -len(v[1]) <= k < len(v[1])
        self.ctx.check(ok, "averages", key + " axis", self.at(x, f.name), "%s: an average over axis %s of %s" % (f.name, k, v[1]))
        if not ok:
            return None
        self.ctx.check(v[1][k] != "time", "averages", key, self.at(x, f.name), "%s: the average over the units is taken over axis %s, which is %s (of %s)" % (f.name, k, v[1][k], v[1]))
        return ("dims", tuple(d for i, d in enumerate(v[1]) if i != k % len(v[1])))


def reader(ctx):
    path = os.path.join(REPO, READER)
    try:
        tree = ast.parse(open(path).read())
    except (OSError, SyntaxError) as e:
        raise Broken("the reader is not readable: %s" % e)
    cls = [x for x in tree.body if isinstance(x, ast.ClassDef) and x.name == "Results"]
    if not cls:
        raise Broken("class Results not found")
    r = Reader(ctx, cls[0], READER, LAYOUT)
    r.names()
    for f in r.m.values():
        if f.name.startswith("_") and f.name != "__init__":
            continue
        ps = [a.arg for a in f.args.args if a.arg != "self"]
        dates = [p for p in ps if p.endswith("_date")]
        for case in ([("none",), ("none",)], [("given",), ("none",)], [("given",), ("given",)]) if dates else ([],):
            args = [case[dates.index(p)] if p in dates and dates.index(p) < 2 else None for p in ps]
            r.method(f, args)
    if not r.n:
        raise Broken("the reader uses no variable of the file")


RUNS = [("socont", 1, "day", 3, 0, True), ("outlets", 1, "day", 2, 0, True), ("gr4j", 1, "day", 2, 0, True), ("hbv", 1, "day", 2, 0, True), ("socont-plain", 1, "hour", 3, 0, False)]


def run(ctx):
    ctx.rule("layout", "each variable of the file has the dimensions, the sizes and the kind of number its reader counts on")
    ctx.rule("cells", "each element of each variable is the recorded value of that item, unit and date")
    ctx.rule("labels", "the lists of labels, and the units of the dates, are those of the recorded items")
    ctx.rule("runs", "the file of a whole run has the identifiers, areas and structures of the units")
    ctx.rule("reader", "the reader names only what is in the file, takes places from the list that belongs to the dimension, and combines variables of the same dimensions")
    ctx.rule("averages", "an average over units or land covers is not one over time")
    for s in SIZES:
        ctx.each("cells", "%s" % (s,), direct, ctx, s)
    for row in RUNS:
        ctx.each("runs", row[0], whole, ctx, row, 0)
    ctx.each("reader", READER, reader, ctx)
    ctx.flush()
