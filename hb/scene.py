"""Scenes: an evaluator whose unknown storage locations get readable names, the
registry tables of the code base, and the judgement of a value against a rule."""
from . import vals as V
from .vals import nat, num, obj, mk, TRUE, FALSE, NULL, ite, Unknown
from .vn import Ev
from .ir import walk, strip_ty, smart_inner, strip_cast

TAINT = {"fresh", "phi", "uninit", "unknown", "loop", "join", "out", "elem", "bin", "cmp", "truth", "nullderef", "op", "ret", "cond", "nan"}


def short(q):
    return q.rsplit("::", 1)[-1].lstrip("_")


class Name:
    """numeric expression builder for rules"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v if isinstance(v, V.V) else num(v)

    def _o(self, o):
        return o.v if isinstance(o, Name) else num(o)

    def __add__(self, o): return Name(V.add(self.v, self._o(o)))
    def __radd__(self, o): return Name(V.add(self._o(o), self.v))
    def __sub__(self, o): return Name(V.sub(self.v, self._o(o)))
    def __rsub__(self, o): return Name(V.sub(self._o(o), self.v))
    def __mul__(self, o): return Name(V.mul(self.v, self._o(o)))
    def __rmul__(self, o): return Name(V.mul(self._o(o), self.v))
    def __truediv__(self, o): return Name(V.div(self.v, self._o(o)))
    def __rtruediv__(self, o): return Name(V.div(self._o(o), self.v))
    def __neg__(self): return Name(V.neg(self.v))
    def __pow__(self, o): return Name(V.fn_atom("pow", self.v, self._o(o)))
    def __lt__(self, o): return V.lt(self.v, self._o(o))
    def __gt__(self, o): return V.lt(self._o(o), self.v)
    def __le__(self, o): return V.le(self.v, self._o(o))
    def __ge__(self, o): return V.le(self._o(o), self.v)


def N(x):
    return x if isinstance(x, Name) else Name(x)


def mx(a, b): return Name(V.v_max(N(a).v, N(b).v))
def mn(a, b): return Name(V.v_min(N(a).v, N(b).v))
def clamp(x, a, b): return mn(mx(x, a), b)
def sel(c, a, b): return Name(ite(c, N(a).v, N(b).v))
def exp(x): return Name(V.fn_atom("exp", N(x).v))
def log(x): return Name(V.fn_atom("log", N(x).v))
def tanh(x): return Name(V.fn_atom("tanh", N(x).v))
def sin(x): return Name(V.fn_atom("sin", N(x).v))
def sqrt(x): return Name(V.fn_atom("sqrt", N(x).v))
def both(a, b): return V.b_and(a, b)
def either(a, b): return V.b_or(a, b)
def no(a): return V.b_not(a)
RENAME = {}


def nm(s): return Name(nat(("name", RENAME.get(s, s))))


def tainted(v, extra=()):
    """why the value cannot be interpreted (None when it is clean)"""
    bad = TAINT | set(extra)
    seen = set()
    todo = [v]
    atoms = set()

    def at(a):
        if a in atoms:
            return None
        atoms.add(a)
        d = V.atom_desc(a)
        return desc(d)

    def desc(d):
        if d and isinstance(d[0], str) and d[0] in bad:
            return d[0]
        if d and d[0] == "call" and len(d) > 1 and isinstance(d[1], str) and d[1].startswith(("Eigen::", "std::")):
            return "library call %s" % d[1].rsplit("::", 1)[-1]
        if d and d[0] == "inv":
            return poly(d[1])
        if d and d[0] in ("ld", "size") and len(d) > 2:
            return "forgotten"
        for y in d:
            if isinstance(y, V.V):
                todo.append(y)
            elif isinstance(y, tuple) and len(y) == 2 and y[0] == "v":
                todo.append(V._by_id(y))
            elif isinstance(y, tuple) and y and isinstance(y[0], str):
                r = desc(y)
                if r:
                    return r
            elif isinstance(y, str) and y.startswith("loop"):
                return "loop"
        return None

    def poly(p):
        for m, c in p:
            for a, e in m:
                r = at(a)
                if r:
                    return r
        return None
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == "num":
            r = poly(x.a[0])
        elif x.k == "ite":
            d = V.var_desc(x.a[0])
            r = poly(d[1]) if d[0] in ("gt", "lt") else desc(d[1:])
            todo += [x.a[1], x.a[2]]
        else:
            r = desc(x.a)
        if r:
            return r
    return None


def taint_path(path):
    for v in path:
        t = tainted(mk("ite", v, TRUE, FALSE))
        if t:
            return t
    return None


def plain_facts(facts):
    """constraints from (poly, rel) pairs and from boolean values that hold in one region only"""
    out = []
    for f in facts:
        if isinstance(f, V.V):
            ps = [p for p, l in V.paths(f) if l is TRUE]
            if len(ps) == 1:
                out += V.cons_of(ps[0])
        else:
            out.append(f)
    return out


def judge(code, spec, facts=(), vocab=None):
    """('held',) / ('violated', text) / ('undecided', why)
    A region is a violation only when both values and the region itself are interpretable."""
    und = []
    facts = plain_facts(facts)

    def tol(x, y, path):
        t = tainted(x) or tainted(y) or taint_path(path)
        if t is None and vocab is not None:
            for z in (x, y):
                t = vocab(z)
                if t:
                    break
        if t:
            und.append(t)
            return True
        return False
    try:
        d = V.difference(code, spec, facts=facts, tol=tol)
    except Unknown as u:
        return ("undecided", str(u))
    if d is None:
        return ("undecided", "uninterpreted: %s" % und[0]) if und else ("held",)
    path, x, y = d
    return ("violated", "when %s: the code gives %s, the rule gives %s" % (
        " and ".join(V.show_var(v, b) for v, b in path.items()) or "always", V.show(x), V.show(y)))


def apply_judge(ctx, rule, key, where, code, spec, facts=(), what="", vocab=None):
    r = judge(code, spec, facts, vocab)
    if r[0] == "held":
        ctx.ok(rule, where, what)
    elif r[0] == "undecided":
        ctx.und(rule, where, "%s %s" % (what, r[1]))
    else:
        ctx.bad(rule, key, where, "%s %s" % (what, r[1]))
    return r[0]


# ---------------------------------------------------------------- registry tables
def literal_rows(f):
    """rows {"string literal", ...} of a brace table in a function: (literal, row node)"""
    out = []
    nodes = list(walk(f["body"])) if f.get("body") else []
    for x in nodes:
        if x.get("k") == "ctor" and x.get("n", "").startswith("std::pair<") and len(x.get("args", [])) == 2:
            a = strip_cast(x["args"][0])
            while a.get("k") == "ctor" and a.get("args"):
                a = strip_cast(a["args"][0])
            if a.get("k") == "str":
                out.append((a["v"], x["args"][1], x.get("l")))
    return out


class Registry:
    """type name -> creator lambda and registration function, aliases"""

    def __init__(self, prog):
        self.rows, self.alias, self.f = {}, {}, None
        for fid, f in prog.fn.items():
            if not f["file"].endswith("Process.cpp"):
                continue
            for name, node, line in literal_rows(f):
                lam = next((y for y in walk(node, into_lambda=False) if y.get("k") == "lambda"), None)
                reg = next((y["fn"] for y in walk(node, into_lambda=False) if y.get("k") in ("fref", "mfref")), None)
                if lam is not None:
                    self.rows[name] = (lam, reg, line, f)
                    self.f = f
                else:
                    s = strip_cast(node)
                    while s.get("k") == "ctor" and s.get("args"):
                        s = strip_cast(s["args"][0])
                    if s.get("k") == "str":
                        self.alias[name] = s["v"]


def elem_of(ty):
    from .ir import elem_type
    return elem_type(strip_ty(ty))


class Scene(Ev):
    """An evaluator for one brick with named storages."""

    def __init__(self, ctx, brick_cls="Storage", opaque=(), hooks=None, names=None, **kw):
        self.ctx = ctx
        p = ctx.prog
        hk = {"load": self.on_load, "call": self.on_call}
        super().__init__(p, ctx.eff, opaque=set(opaque), hooks=hk, **kw)
        self.user = hooks or {}
        self.names = names or {}
        self.brick = self.root("brick", brick_cls)
        self.unit = self.root("unit", "HydroUnit")
        self.tm = self.root("time", "TimeMachine")
        self.boolfacts = {}

    def root(self, name, cls=None):
        o = obj("root", name)
        if cls:
            self.exact[o] = cls
        return o

    def assume(self, *conds):
        """restricts the evaluation to a region"""
        self.facts = list(self.facts) + plain_facts(conds)

    def parameter(self, name, value=None):
        """a Parameter object of that name"""
        o = self.root("param:" + name, "Parameter")
        self.st.s[mk("loc", "f", o, "Parameter::_name")] = V.string(name)
        self.st.s[mk("loc", "f", o, "Parameter::_value")] = value if value is not None else nat(("name", name))
        return o

    def give_parameters(self, settings, cls, names):
        self.st.s[mk("loc", "f", settings, cls + "::parameters")] = mk("vec", *[self.parameter(x) for x in names])

    def container(self, owner, kind):
        cls = {"water": "WaterContainer", "snow": "SnowContainer", "ice": "IceContainer"}[kind]
        return self.root("%s.%s" % (owner, kind) if owner != "brick" else kind, cls)

    def on_load(self, ev, loc, ty):
        u = self.user.get("load")
        if u:
            r = u(self, loc, ty)
            if r is not None:
                return r
        a = loc.a
        if a[0] == "f" and a[1].k == "obj" and a[1].a[0] == "root":
            on = a[1].a[1]
            inner = smart_inner(ty) or (strip_ty(ty.replace("*", "")) if ty and ty.strip().endswith(("*", "* const")) else None)
            if ev.st.ver.get(a[2]):
                return None
            if inner in ("WaterContainer", "SnowContainer", "IceContainer") and self.is_brick(a[1]):
                return self.container(on, {"WaterContainer": "water", "SnowContainer": "snow", "IceContainer": "ice"}[inner])
            if inner == "Brick" and self.p.is_a(self.exact.get(a[1], ""), "WaterContainer"):
                return self.brick if "." not in on else self.root(on.split(".")[0])
            if inner == "HydroUnit" and self.is_brick(a[1]):
                return self.unit if on == "brick" else self.root(on + ".unit", "HydroUnit")
            if inner in ("LandCover", "Brick") and self.p.is_a(self.exact.get(a[1], ""), "SurfaceComponent"):
                return self.root(on + ".cover", "GenericLandCover")
            if inner == "Brick" and self.p.is_a(self.exact.get(a[1], ""), "FluxToBrick"):
                return self.root(on + ".to", self.names.get("fluxTarget", "Storage"))
            if strip_ty(ty or "").startswith("std::vector") and smart_inner(elem_of(ty) or "") == "Process" and self.is_brick(a[1]):
                return self.names.get(on + ".processes")
            k = ev.kind(ty)
            nme = "%s.%s" % (on, short(a[2]))
            if nme in self.names:
                return self.names[nme]
            if k == "num":
                return nat(("name", nme))
            if k == "bool" and nme.endswith(".infiniteStorage"):
                return FALSE
            if k == "bool":
                return V.bopaque("flag", nme)
            if k == "class":
                return None
        if a[0] == "d" and a[1].k == "obj":
            o = a[1]
            if o.a[0] == "param":
                return self.names.get(o.a[1]) or nat(("name", o.a[1]))
            if o.a[0] == "ld" and isinstance(o.a[1], V.V) and o.a[1].a[0] == "f" and ev.kind(ty) == "num":
                b = o.a[1].a[1]
                if b.k == "obj" and b.a[0] == "root":
                    nme = "%s.%s" % (b.a[1], short(o.a[1].a[2]))
                    return self.names.get(nme) or nat(("name", nme))
        return None

    def is_brick(self, o):
        c = self.exact.get(o)
        return c is not None and self.p.is_a(c, "Brick")

    def on_call(self, ev, e, n, recv, args, tgt):
        u = self.user.get("call")
        if u:
            r = u(self, e, n, recv, args, tgt)
            if r is not None:
                return r
        if n in ("HydroUnit::GetPropertyDouble", "HydroUnit::GetPropertyFloat") and args and args[0].k == "str":
            un = args[1].a[0] if len(args) > 1 and args[1].k == "str" else ""
            return nat(("name", "%s.%s[%s]" % (recv.a[1] if recv.k == "obj" and recv.a[0] == "root" else "unit", args[0].a[0], un)))
        if n == "HydroUnit::GetPropertyString" and args and args[0].k == "str":
            return self.names.get("unit." + args[0].a[0]) or obj("prop", args[0].a[0])
        if n == "TimeMachine::GetCurrentDayOfYear":
            return nat(("name", "dayOfYear"))
        if n == "Process::GetParameterValuePointer" and self.user.get("real"):
            self.user["asked"].append((args[1].a[0] if args[1].k == "str" else None, e.get("l")))
        elif n == "Process::GetParameterValuePointer":
            nmv = args[1]
            if nmv.k == "str":
                return obj("param", nmv.a[0])
            return None
        if n == "Process::HasParameter" and args[1].k == "str" and not self.user.get("real") and self.user.get("declared") is not None:
            return V.boolean(args[1].a[0] in self.user["declared"])
        if recv is not None and recv.k == "obj" and recv.a[0] == "forcing":
            if n == "Forcing::GetType":
                return mk("enum", recv.a[1])
            if n == "Forcing::GetValue":
                return self.st.s.get(mk("loc", "forcingval", recv)) or nat(("name", recv.a[1].rsplit("::", 1)[-1]))
            if n == "Forcing::UpdateValue":
                self.st.s[mk("loc", "forcingval", recv)] = args[0]
                return V.VOID
        return None
