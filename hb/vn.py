"""Gated value numbering: computes, for a function or a sequence of public calls, the
value of results and fields as canonical decision diagrams over the entry values.

It is a forward dataflow over the structured syntax tree; joins build gated values;
callees with one resolved target are inlined; loops are summarised (sums over the
iteration domain, per-element updates) or their effects forgotten."""
from . import vals as V
from fractions import Fraction
from .vals import Unknown, mk, num, nat, ite, TRUE, FALSE, NULL, VOID, obj, apply
from .ir import strip_ty, smart_inner, elem_type, strip_cast, walk
from .lib import Lib, MAPS, SETS
from .arrays import Arrays

NUMTY = {"double", "float", "int", "unsigned int", "long", "unsigned long", "short", "char", "size_t", "std::size_t",
         "long double", "unsigned short", "long long", "unsigned long long", "unsigned char", "signed char", "int64_t", "uint64_t", "ptrdiff_t"}
INTTY = NUMTY - {"double", "float", "long double"}
MATH1 = {"exp", "log", "sqrt", "floor", "ceil", "round", "tanh", "sin", "cos", "tan", "atan", "log10", "log2", "trunc", "asin", "acos", "expm1", "log1p", "cosh", "sinh"}

FREEMATH = MATH1 | {"pow", "fabs", "abs", "fmax", "fmin", "isnan", "isinf", "isfinite", "lround"}
FREEMATH |= {x + "f" for x in FREEMATH}


class Loop:
    def __init__(self, dom, idx, coll=None):
        self.dom, self.idx, self.coll = dom, idx, coll


class St:
    __slots__ = ("s", "pc", "ver")

    def __init__(self):
        self.s = {}
        self.pc = TRUE
        self.ver = {}

    def copy(self):
        n = St()
        n.s = dict(self.s)
        n.pc = self.pc
        n.ver = dict(self.ver)
        return n


class NullUse(Exception):
    """a null pointer is certainly used"""


class Event:
    def __init__(self, pc, fn, n, recv, args, line, file, loops, ret, caller):
        self.pc, self.fn, self.n, self.recv, self.args = pc, fn, n, recv, args
        self.line, self.file, self.loops, self.ret, self.caller = line, file, loops, ret, caller

    def __repr__(self):
        return "Event(%s(%s) on %s if %s)" % (self.n, ", ".join(V.show(a) for a in self.args), self.recv and V.show(self.recv), V.show(self.pc))


# library calls that change their receiver; when one is not followed, the receiver is unknown
CHANGERS = ("std::",)
CHANGES = {"insert", "emplace", "erase", "append", "assign", "push_back", "pop_back", "resize", "swap", "clear", "merge", "extract", "replace", "emplace_back",
           "insert_range", "append_range", "operator+=", "operator=", "operator-=", "operator*=", "operator/=", "operator++", "operator--", "reset", "try_emplace", "insert_or_assign", "fill"}


def short_of(n):
    return n.rsplit("::", 1)[-1].split("<")[0]


class Tries(list):
    """the throws recorded under a try, and what was open when it was entered"""
    frames = guards = 0


class Frame:
    def __init__(self, fid, fn, this):
        self.id, self.fn, self.this = fid, fn, this
        self.env = {}
        self.rets = []     # (state, value)
        self.guards = []   # local objects whose destructor does something
        self.brk = []
        self.cnt = []


def is_ptr(t):
    t = (t or "").strip()
    if t.endswith("const"):
        t = t[:-5].strip()
    return t.endswith("*") or smart_inner(t) is not None


class Ev(Arrays, Lib):
    maxloop = 24
    recursion = 1
    precise_try = False
    ieee = False     # doubles that are known are rounded as the hardware does
    facts = ()       # (poly, rel) constraints assumed for the whole evaluation

    def __init__(self, prog, eff=None, opaque=(), exact=None, hooks=None, depth=14, inline_only=None):
        self.p, self.eff = prog, eff
        self.opaque = set(opaque)
        self.exact = dict(exact or {})     # object V -> exact class
        self.hooks = hooks or {}
        self.maxdepth = depth
        self.st = St()
        self.events = []
        self.frames = []
        self.nf = 0
        self.loops = []
        self.tries = []
        self.throws = []                  # (pc, type, line, file)
        self.thrown = []                  # as throws, with those that were caught
        self.stop_null = False            # stop at the first of the following that is reached for certain
        self.nulls = []                   # (pc, function, line): members of nothing that were used
        self.locty = {}
        self.fresh_n = 0
        self.record = True
        self.lams = []
        self.inlined = set()
        self.notes = []
        V.reset_budget()

    # ---------------------------------------------------------------- helpers
    def fresh(self, *d):
        self.fresh_n += 1
        return ("fresh", self.fresh_n) + d

    def isclass(self, t):
        return strip_ty(t) in self.p.cls

    def kind(self, t):
        t0 = (t or "").strip()
        t = t0[:-1].strip() if t0.endswith("&") else t0
        if is_ptr(t):
            return "ptr"
        b = strip_ty(t)
        if b == "bool":
            return "bool"
        if b in NUMTY:
            return "num"
        if b in self.p.enums:
            return "enum"
        if b.startswith(("std::basic_string", "std::string")):
            return "str"
        if b in self.p.cls:
            return "class"
        if b == "void":
            return "void"
        return "obj"

    def typed(self, desc, ty):
        k = self.kind(ty)
        if k == "num":
            return nat(desc)
        if k == "bool":
            return V.bopaque(*desc)
        return obj(*desc)

    def null_used(self, line):
        """a member of nothing is used"""
        fn = self.frames[-1].fn if self.frames else None
        self.nulls.append((self.st.pc, fn, line))
        if self.stop_null and self.st.pc is TRUE:
            raise NullUse("a null pointer is used")

    def deref(self, p):
        """location designated by a pointer value"""
        if p.k == "addr":
            return p.a[0]
        if p.k == "loc":
            return p
        if p.k == "obj":
            return p.a[1] if p.a[0] == "sub" else mk("loc", "d", p)
        if p.k == "it":
            l = self.it_loc(p)
            if l is None:
                raise Unknown("dereference of an iterator")
            return l
        if p.k == "ite":
            hs = [x for x in self.leaves(p) if x.k != "null"]
            if len(hs) == 1:
                return self.deref(hs[0])
            raise Unknown("dereference of a conditional pointer")
        if p.k == "null":
            self.null_used(None)
        raise Unknown("dereference of %s" % p.k)

    def leaves(self, x):
        out, todo, seen = [], [x], set()
        while todo:
            y = todo.pop()
            if y.id in seen:
                continue
            seen.add(y.id)
            if y.k == "ite":
                todo += [y.a[1], y.a[2]]
            elif y not in out:
                out.append(y)
        return out

    def objat(self, loc):
        if loc.a[0] == "d":
            return loc.a[1]
        if loc.a[0] in ("l", "ve", "me", "e", "sl"):
            v = self.load(loc, self.locty.get(loc, "obj")) if loc.a[0] in ("ve", "me") else self.st.s.get(loc)
            if v is not None and v.k == "obj" and v in self.exact:
                return v          # the program object held there by value
        return mk("obj", "sub", loc)

    def fieldname(self, loc):
        return loc.a[2] if loc.a[0] == "f" else None

    # ---------------------------------------------------------------- memory
    def table(self, q):
        """the elements of a constant array of literals"""
        g = [x for x in self.p.globals.values() if x.get("q") == q]
        if len(g) != 1 or not g[0].get("const"):
            return None
        i = g[0].get("init") or {}
        if i.get("k") != "list" or not i.get("es") or any(x["k"] not in ("int", "flt", "bool") for x in i["es"]):
            return None
        m = "[%d]" % len(i["es"])
        if m not in g[0].get("ty", "") and m not in i.get("ty", ""):
            return None
        return mk("vec", *[self.rv(x) for x in i["es"]])

    def initial(self, loc, ty):
        h = self.hooks.get("load")
        if h:
            r = h(self, loc, ty)
            if r is not None:
                return r
        if loc.a[0] == "g":
            r = self.table(loc.a[1])
            if r is not None:
                return r
        fld = self.fieldname(loc)
        ver = self.st.ver.get(fld) if fld else None
        if ver is None and loc.a[0] == "e":
            # element of a collection field
            b = loc.a[1]
            if b.k == "obj" and b.a[0] == "sub" and b.a[1].a[0] == "f":
                ver = self.st.ver.get(b.a[1].a[2])
        desc = ("ld", loc.id) + ((ver,) if ver else ())
        k = self.kind(ty)
        if k == "num":
            return nat(desc)
        if k == "bool":
            return V.bopaque(*desc)
        if k in ("ptr", "enum", "str"):
            return obj(*(("ld", loc) + ((ver,) if ver else ())))
        return self.objat(loc)

    def load(self, loc, ty):
        if loc.a[0] == "ve":
            c = loc.a[2]
            return apply(lambda x: x.a[c] if x.k == "vec" and c < len(x.a) else self.typed(("elem", x.id, c), ty or "double"), self.load(loc.a[1], self.locty.get(loc.a[1], "obj")))
        if loc.a[0] == "me":
            key = loc.a[2]

            def fm(x):
                i = self.map_find(x, key) if x.k == "map" else None
                return x.a[i + 1] if i is not None else self.typed(("mapped", x.id, key.id), ty or "obj")
            return apply(fm, self.load(loc.a[1], self.locty.get(loc.a[1], "obj")))
        self.locty.setdefault(loc, ty)
        v = self.st.s.get(loc)
        if v is None:
            v = self.initial(loc, ty)
        return v

    def store(self, loc, val, ty=None):
        if val.k == "vec" and len(val.a) == 1 and ty and self.kind(ty) in ("num", "bool", "ptr", "str", "enum") and \
                (val.a[0].k in ("num", "bool", "str", "null", "enum", "addr", "obj") or val.a[0] in (TRUE, FALSE)):
            val = val.a[0]      # scalar{x}
        if loc.a[0] == "ve":
            c = loc.a[2]
            cur = self.load(loc.a[1], self.locty.get(loc.a[1], "obj"))
            self.store(loc.a[1], apply(lambda x: mk("vec", *(list(x.a[:c]) + [val] + list(x.a[c + 1:]))) if x.k == "vec" and c < len(x.a) else obj(*self.fresh("vec")), cur))
            return
        if loc.a[0] == "me":
            cur = self.load(loc.a[1], self.locty.get(loc.a[1], "obj"))
            self.store(loc.a[1], apply(lambda x: self.map_put(x, loc.a[2], val) if x.k == "map" else obj(*self.fresh("map")), cur))
            return
        if ty:
            self.locty.setdefault(loc, ty)
        if loc.a[0] == "e":
            self.invalidate_aliases(loc)
        if self.facts and val.k in ("ite", "vec"):
            val = V.prune(val, self.facts) if val.k == "ite" else mk("vec", *[V.prune(x, self.facts) if isinstance(x, V.V) else x for x in val.a])
        self.st.s[loc] = val
        if val.k == "ite" and val.k == "num":
            pass

    def invalidate_aliases(self, loc):
        coll, idx = loc.a[1], loc.a[2]
        for l in list(self.st.s):
            if l.a[0] == "e" and l.a[1] is coll and l is not loc:
                j = l.a[2]
                d = V.sub(tonum0(idx), tonum0(j))
                if d.k == "num" and V.p_isconst(d.a[0]) and d.a[0]:
                    continue
                # may be the same element
                del self.st.s[l]
                self.st.s[l] = self.typed(self.fresh("elem"), self.locty.get(l, "double"))

    def havoc_field(self, q):
        self.fresh_n += 1
        tag = "v%d" % self.fresh_n
        self.st.ver[q] = tag
        for l in list(self.st.s):
            if l.a[0] == "f" and l.a[2] == q:
                del self.st.s[l]
            elif l.a[0] == "e" and l.a[1].k == "obj" and l.a[1].a[0] == "sub" and l.a[1].a[1].a[0] == "f" and l.a[1].a[1].a[2] == q:
                del self.st.s[l]

    def merge(self, a, b, ca=None):
        """joins two states; ca: condition under which a (relative) applies"""
        if a is None or a.pc is FALSE:
            return b
        if b is None or b.pc is FALSE:
            return a
        c = ca if ca is not None else a.pc
        r = St()
        r.pc = V.b_or(a.pc, b.pc)
        r.ver = dict(a.ver)
        for k, v in b.ver.items():
            if r.ver.get(k) != v:
                r.ver[k] = "%s|%s" % (r.ver.get(k), v) if r.ver.get(k) else v
        for l in set(a.s) | set(b.s):
            x, y = a.s.get(l), b.s.get(l)
            if x is y:
                r.s[l] = x
                continue
            sv = self.st
            if x is None:
                self.st = a
                x = self.initial(l, self.locty.get(l, "obj"))
                self.st = sv
            if y is None:
                self.st = b
                y = self.initial(l, self.locty.get(l, "obj"))
                self.st = sv
            try:
                r.s[l] = ite(c, x, y)
            except Unknown:
                r.s[l] = self.typed(self.fresh("join"), self.locty.get(l, "obj"))
        return r

    # ---------------------------------------------------------------- lvalues
    def lv(self, e):
        k = e["k"]
        fr = self.frames[-1]
        if k == "ref":
            dk = e.get("dk")
            if dk in ("local", "param"):
                b = self.lookup(e["id"])
                if b is not None:
                    return b
                return mk("loc", "l", fr.id, e["id"])
            if dk == "slocal":
                b = self.lookup(e["id"])
                if b is not None:
                    return b
            return mk("loc", "g", e["id"])
        if k == "mem" and e["f"].startswith("std::pair<"):
            b = self.rv(e["b"])
            second = e["f"].endswith("::second")
            hs = self.it_real(b)
            if hs and len(hs) == 1:
                l = self.it_loc(hs[0], True)
                if l is not None and l.a[0] == "me" and second:
                    return l
                if l is not None and l.a[0] == "ve":
                    return mk("loc", "ve", l, 1 if second else 0)
            if b.k == "vec" and len(b.a) == 2 and not e.get("ar"):
                l = self.lv(e["b"])
                if l.a[0] != "t":
                    return mk("loc", "ve", l, 1 if second else 0)
            raise Unknown("member of a pair")
        if k == "mem":
            if e.get("ar"):
                o = self.rv(e["b"])
            else:
                o = self.objof(e["b"])
            return self.fieldloc(o, e["f"])
        if k == "idx":
            base = self.objof(e["b"])
            i = self.rv(e["i"])
            w = self.velem(e["b"], base, i)
            return w if w is not None else mk("loc", "e", base, i)
        if k == "un" and e["op"] == "*":
            return self.deref(self.rv(e["e"]))
        if k in ("cast", "copy"):
            if e.get("dyn"):
                return self.deref(self.rv(e))
            return self.lv(e["e"])
        if k == "un" and e["op"] in ("++", "--"):
            self.rv(e)
            return self.lv(e["e"])
        if k == "asg":
            self.rv(e)
            return self.lv(e["a"])
        if k == "this":
            return self.deref(fr.this)
        if k == "call":
            n = e.get("n", "").rsplit("::", 1)[-1]
            if e.get("recv") is not None and n in ("front", "back") and e["n"].startswith(("std::vector", "std::array")):
                base = self.objof(e["recv"])
                i = num(0) if n == "front" else V.sub(self.size_of(base), num(1))
                w = self.velem(e["recv"], base, i)
                return w if w is not None else mk("loc", "e", base, i)
            if e.get("recv") is not None and (e.get("op") == "[]" or n == "at") and e["n"].startswith(MAPS):
                return self.map_slot(e)
            if e.get("op") == "()" and e.get("recv") is not None and e["n"].startswith("Eigen::") and len(e.get("args", [])) == 2:
                l = self.matrix_slot(e)
                if l is not None:
                    return l
            if e.get("op") == "*" and e.get("recv") is not None and "iterator" in e["n"]:
                b = self.rv(e["recv"])
                hs = self.it_real(b)
                if hs and len(hs) == 1:
                    l = self.it_loc(hs[0])
                    if l is not None:
                        return l
            v = self.rv(e)
            if v.k == "addr":
                return v.a[0]
            if v.k in ("obj",):
                return self.deref(v)
            t = mk("loc", "t", *self.fresh("tmp"))
            self.st.s[t] = v
            self.locty[t] = e.get("ty", "obj")
            return t
        v = self.rv(e)
        if v.k == "obj":
            return self.deref(v)
        t = mk("loc", "t", *self.fresh("tmp"))
        self.st.s[t] = v
        return t

    def velem(self, be, base, i):
        """location of an element of a vector whose elements are known one by one"""
        if i.k != "num" or not V.p_isconst(i.a[0]) or base.k not in ("vec", "ite"):
            return None
        c = int(V.p_constval(i.a[0]))
        if not all(x.k == "vec" and 0 <= c < len(x.a) for x in self.leaves(base)):
            return None
        try:
            l = self.lv(be)
        except Unknown:
            return None
        if l.a[0] == "t":
            return None
        return mk("loc", "ve", l, c)

    def fieldloc(self, o, f):
        if o.k == "ite":
            hs = [x for x in self.leaves(o) if x.k == "obj"]
            if len(hs) == 1:
                o = hs[0]
            else:
                raise Unknown("field of a conditional object")
        if o.k == "it":
            o = self.it_deref(o)
        if o.k == "addr":
            o = self.objat(o.a[0])
        if o.k == "null":
            o = obj("nullderef")
        if o.k != "obj":
            raise Unknown("field of %s" % o.k)
        if f.endswith("::"):
            pass
        return mk("loc", "f", o, f)

    def objof(self, e):
        """the object/collection denoted by an expression of class or collection type"""
        v = self.rv(e)
        if v.k in ("obj", "vec", "lam", "map", "set"):
            return v
        if v.k == "it":
            return self.it_deref(v)
        if v.k == "addr":
            return self.objat(v.a[0])
        if v.k == "ite":
            return v
        if v.k == "null":
            self.null_used(e.get("l") if isinstance(e, dict) else None)
            return obj("nullderef")
        return v

    # ---------------------------------------------------------------- rvalues
    def rv(self, e):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unknown("expression %s" % e["k"])
        return m(e)

    def e_int(self, e):
        return num(e["v"])

    def e_flt(self, e):
        return num(Fraction(float(e["v"]))) if self.ieee else num(float(e["v"]))

    def e_chr(self, e):
        return num(e["v"])

    def e_str(self, e):
        return V.string(e["v"])

    def e_bool(self, e):
        return V.boolean(e["v"])

    def e_null(self, e):
        return NULL

    def e_this(self, e):
        return self.frames[-1].this

    def e_enum(self, e):
        return mk("enum", e["n"])

    def e_zero(self, e):
        k = self.kind(e.get("ty"))
        return {"num": num(0), "bool": FALSE, "ptr": NULL}.get(k, obj(*self.fresh("zero")))

    def e_fref(self, e):
        return mk("fref", e["fn"])

    def e_mfref(self, e):
        return mk("fref", e["fn"])

    def e_ref(self, e):
        if e.get("dk") == "global" and e.get("cv") == -1 and strip_ty(e.get("ty")) in ("unsigned long", "size_t", "std::size_t"):
            return num(2 ** 64 - 1)
        if e.get("dk") == "global" and "cv" in e and e["cv"] != "nonfinite":
            ty = strip_ty(e.get("ty"))
            if ty == "bool":
                return V.boolean(bool(e["cv"]))
            return num(float(e["cv"])) if not float(e["cv"]).is_integer() else num(int(e["cv"]))
        if e.get("dk") == "global" and e.get("cv") == "nonfinite" and e.get("n", "").rsplit("::", 1)[-1].upper().startswith("NAN"):
            return nat(("nan",))
        if e.get("dk") == "global" and e.get("n", "").startswith("Eigen::placeholders::"):
            return mk("enum", e["n"])
        l = self.lv(e)
        return self.load(l, e.get("ty"))

    def e_mem(self, e):
        if e["f"].startswith("std::pair<"):
            i = 1 if e["f"].endswith("::second") else 0
            b = self.rv(e["b"])
            if any(x.k == "it" for x in self.leaves(b)):
                b = self.it_deref(b)

            def f(x):
                if x.k == "vec" and len(x.a) == 2:
                    return x.a[i]
                return self.typed(("pairpart", x.id, i), e.get("ty") or "obj")
            r = apply(f, b)
            rs = [x for x in self.leaves(b)]
            if len(rs) > 1 and any(x.k == "obj" and x.a[0] == "pastend" for x in rs):
                # the iterator was checked: the alternatives past the end do not apply here
                good = [x for x in rs if x.k == "vec"]
                if len(good) == 1:
                    return good[0].a[i]
                r = self.drop_pastend(b, i)
            return r
        return self.load(self.lv(e), e.get("ty"))

    def drop_pastend(self, b, i):
        def go(x):
            if x.k == "ite":
                h, l = go(x.a[1]), go(x.a[2])
                if h is None:
                    return l
                if l is None:
                    return h
                return V.mk_ite_var(x.a[0], h, l)
            return x.a[i] if x.k == "vec" else None
        r = go(b)
        return r if r is not None else obj(*self.fresh("pastend"))

    def e_idx(self, e):
        base = self.objof(e["b"])
        i = self.rv(e["i"])
        if base.k == "vec" and i.k == "num" and V.p_isconst(i.a[0]):
            c = int(V.p_constval(i.a[0]))
            if 0 <= c < len(base.a):
                return base.a[c]
        if base.k == "ite" or (base.k == "vec"):
            def f(b, j):
                if b.k == "vec" and j.k == "num" and V.p_isconst(j.a[0]):
                    c = int(V.p_constval(j.a[0]))
                    if 0 <= c < len(b.a):
                        return b.a[c]
                return self.typed(("elem", b.id, j.id), e.get("ty") or "double")
            return apply(f, base, i)
        loc = mk("loc", "e", base, i)
        return self.load(loc, e.get("ty") or "double")

    def e_cast(self, e):
        if e.get("dyn"):
            o = self.rv(e["e"])
            want = strip_ty(e["to"])
            h = self.hooks.get("dyncast")
            if h:
                r = h(self, o, want)
                if r is not None:
                    return r

            def f(x):
                if x.k != "obj":
                    return x
                c = self.exact.get(x)
                if c is not None:
                    return x if self.p.is_a(c, want) else NULL
                sc = self.stype(e["e"])
                if sc and self.p.is_a(sc, want):
                    return x
                return ite(V.bopaque("isa", x.id, want), x, NULL)
            return apply(f, o)
        v = self.rv(e["e"])
        to = strip_ty(e.get("to"))
        k = self.kind(e.get("to"))
        if k == "bool":
            try:
                return V.tobool(v)
            except Unknown:
                return V.bopaque("truth", v.id)
        if k == "num" and v.k in ("num", "ite", "bool") or (k == "num" and v.k == "enum"):
            if v.k == "enum":
                return nat(("enumval", v.a[0]))
            if to in INTTY:
                src = self.numty(e["e"])
                if src in ("double", "float", "long double", None):
                    if not self.intlike(v):
                        return V.fn_atom("trunc", v)
            if any(x.k not in ("num", "bool") for x in self.leaves(v)):
                return v
            return apply(V.tonum, v)
        return v

    def intlike(self, v):
        for x in self.leaves(v):
            if x.k == "num":
                for m, c in x.a[0]:
                    if c.denominator != 1:
                        return False
                    for a, ex in m:
                        if V.atom_desc(a)[0] not in ("size", "i", "floor", "ceil", "trunc", "round"):
                            return False
                        if ex < 0:
                            return False
            elif x.k != "bool":
                return False
        return True

    def numty(self, e):
        k = e.get("k")
        if k == "int" or k == "chr":
            return "int"
        if k == "flt":
            return "double"
        if k == "bool":
            return "bool"
        if k == "cast":
            t = strip_ty(e.get("to"))
            return t
        t = e.get("ty")
        if t:
            return strip_ty(t)
        if k == "un" and e["op"] in ("-", "+", "++", "--", "p++", "p--"):
            return self.numty(e["e"])
        if k == "cond":
            a, b = self.numty(e["t"]), self.numty(e["e"])
            return a if a == b else ("double" if "double" in (a, b) else None)
        if k == "asg":
            return self.numty(e["a"])
        return None

    def stype(self, e):
        t = e.get("ty") or e.get("to")
        if t:
            s = smart_inner(t) or strip_ty(t)
            if s in self.p.cls:
                return s
        return None

    def e_copy(self, e):
        return self.by_value(self.rv(e["e"]), e.get("ty"))

    def e_cond(self, e):
        c = self.cond(e["c"])
        if c is TRUE:
            return self.rv(e["t"])
        if c is FALSE:
            return self.rv(e["e"])
        s0 = self.st
        pc0 = s0.pc
        self.st = s0.copy()
        self.st.pc = V.b_and(pc0, c)
        a = self.rv(e["t"])
        sa = self.st
        self.st = s0.copy()
        self.st.pc = V.b_and(pc0, V.b_not(c))
        b = self.rv(e["e"])
        sb = self.st
        self.st = self.merge(sa, sb, c)
        self.st.pc = pc0
        try:
            return ite(c, a, b)
        except Unknown:
            return obj(*self.fresh("cond"))

    def cond(self, e):
        v = self.rv(e)
        try:
            c = V.tobool(v)
        except Unknown:
            c = V.bopaque("truth", v.id)
        return self.simp(c)

    def simp(self, c):
        pc = self.st.pc
        if self.facts and c.k == "ite":
            c = V.prune(c, self.facts)
        if pc is TRUE or c in (TRUE, FALSE):
            return c
        try:
            if V.b_and(pc, c) is FALSE:
                return FALSE
            if V.b_and(pc, V.b_not(c)) is FALSE:
                return TRUE
        except Unknown:
            pass
        return c

    def e_un(self, e):
        op = e["op"]
        if op == "!":
            return V.b_not(self.cond(e["e"]))
        if op == "-":
            return self.safe(V.neg, self.rv(e["e"]))
        if op == "+":
            return self.rv(e["e"])
        if op in ("++", "--", "p++", "p--"):
            l = self.lv(e["e"])
            old = self.load(l, self.numty(e["e"]) or "int")
            try:
                new = V.add(old, num(1 if "+" in op else -1))
            except Unknown:
                new = obj(*self.fresh("inc"))
            self.store(l, new)
            return old if op[0] == "p" else new
        if op == "*":
            p = self.rv(e["e"])
            if p.k == "vec" or p.k == "lam":
                return p
            ls = [x for x in self.leaves(p)]
            if len(ls) > 1:
                ty = self.pointee(e["e"])

                def f(x):
                    if x.k == "null":
                        return obj("nullderef")
                    return self.load(self.deref(x), ty)
                return apply(f, p)
            return self.load(self.deref(p), e.get("ty") or self.pointee(e["e"]))
        if op == "&":
            if e["e"].get("k") in ("fref", "mfref"):
                return self.rv(e["e"])
            l = self.lv(e["e"])
            t = self.locty.get(l) or self.numty(e["e"])
            if t and (self.kind(t) in ("class",) or (self.kind(t) == "obj")):
                return self.objat(l)
            if l.a[0] == "d":
                return l.a[1]
            return mk("addr", l)
        if op == "~":
            return nat(("bitnot", self.rv(e["e"]).id))
        return obj(*self.fresh("un", op))

    def pointee(self, e):
        t = e.get("ty") or e.get("to") or ""
        si = smart_inner(t)
        if si:
            return si
        t = t.strip()
        if t.endswith("const"):
            t = t[:-5].strip()
        return t[:-1].strip() if t.endswith("*") else t

    def safe(self, f, *a):
        try:
            return f(*a)
        except Unknown:
            return nat(self.fresh("op"))

    def e_bin(self, e):
        op = e["op"]
        if op == "&&":
            a = self.cond(e["a"])
            if a is FALSE:
                return FALSE
            return self.shortcut(e, a, True)
        if op == "||":
            a = self.cond(e["a"])
            if a is TRUE:
                return TRUE
            return self.shortcut(e, a, False)
        a = self.rv(e["a"])
        b = self.rv(e["b"])
        if op == ",":
            return b
        return self.binop(op, a, b, e)

    def shortcut(self, e, a, conj):
        if a is (TRUE if conj else FALSE):
            return self.cond(e["b"])
        s0 = self.st
        pc0 = s0.pc
        ca = a if conj else V.b_not(a)
        self.st = s0.copy()
        self.st.pc = V.b_and(pc0, ca)
        n = len(self.events)
        b = self.cond(e["b"])
        if self.st.s != s0.s or self.st.ver != s0.ver:
            self.st = self.merge(self.st, s0, ca)
        else:
            self.st = s0
        self.st.pc = pc0
        return V.b_and(a, b) if conj else V.b_or(a, b)

    def ieee_op(self, op, a, b, e):
        """a double operation on two known numbers, rounded as the hardware does"""
        if strip_ty(e.get("ty")) not in ("double",):
            return None
        if a.k != "num" or b.k != "num" or not (V.p_isconst(a.a[0]) and V.p_isconst(b.a[0])):
            return None
        x, y = float(V.p_constval(a.a[0])), float(V.p_constval(b.a[0]))
        if op == "/" and y == 0:
            return None
        r = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else x / y
        return num(Fraction(r))

    def binop(self, op, a, b, e):
        if self.ieee and op in ("+", "-", "*", "/"):
            r = self.ieee_op(op, a, b, e)
            if r is not None:
                return r
        try:
            if op == "+":
                if self.isint(e) and False:
                    pass
                if a.k in ("str",) or b.k in ("str",):
                    return obj("concat", a, b)
                if a.k == "obj" and a.a[0] == "arrptr" and b.k == "num" and V.p_isconst(b.a[0]):
                    return obj("arrptr", a.a[1], V.add(a.a[2], b))
                if a.k == "addr" and a.a[0].k == "loc" and a.a[0].a[0] == "ve" and op == "+" and b.k == "num" and V.p_isconst(b.a[0]):
                    return mk("addr", mk("loc", "ve", a.a[0].a[1], a.a[0].a[2] + int(V.p_constval(b.a[0]))))
                return V.add(a, b)
            if op == "-":
                return V.sub(a, b)
            if op == "*":
                return V.mul(a, b)
            if op == "/":
                if strip_ty(e.get("ty")) in INTTY:
                    return V.idiv(a, b)
                return V.div(a, b)
            if op == "%":
                return nat(("mod", a.id, b.id))
            if op == "<":
                return V.lt(a, b)
            if op == ">":
                return V.lt(b, a)
            if op == "<=":
                return V.le(a, b)
            if op == ">=":
                return V.le(b, a)
            if op == "==":
                return V.eq(a, b)
            if op == "!=":
                return V.b_not(V.eq(a, b))
        except Unknown as u:
            if "large" in str(u):
                raise
            if op in ("<", ">", "<=", ">=", "==", "!="):
                return V.bopaque("cmp", op, a.id, b.id)
            return nat(("bin", op, a.id, b.id))
        return nat(("bin", op, a.id, b.id))

    def isint(self, e):
        return strip_ty(e.get("ty")) in INTTY

    def e_asg(self, e):
        op = e["op"]
        if op == "=":
            val = self.rv(e["b"])
        else:
            l = self.lv(e["a"])
            old = self.load(l, self.numty(e["a"]) or "double")
            b = self.rv(e["b"])
            fake = dict(e, ty=self.numty(e["a"]))
            val = self.binop(op[:-1], old, b, fake)
        l = self.lv(e["a"])
        self.store(l, val, self.numty(e["a"]))
        self.note_event("=", l, val, e)
        return val

    def note_event(self, op, l, val, e):
        h = self.hooks.get("assign")
        if h:
            h(self, l, val, e)

    def e_list(self, e):
        vs = [self.rv(x) for x in e.get("es", [])]
        t = strip_ty(e.get("ty"))
        if t in self.p.cls:
            o = obj("new", *self.fresh(t))
            self.exact[o] = t
            fl = [f for f in self.p.cls[t]["fields"]]
            for f, v in zip(fl, vs):
                self.store(mk("loc", "f", o, f["q"]), v, f["ty"])
            for f in fl[len(vs):]:
                if f.get("init"):
                    self.store(mk("loc", "f", o, f["q"]), self.rv(f["init"]), f["ty"])
            return o
        return mk("vec", *vs)

    def e_lambda(self, e):
        self.lams.append((e, self.frames[-1]))
        return mk("lam", len(self.lams) - 1)

    def e_throw(self, e):
        t = strip_ty(e.get("ty")) if e.get("ty") else None
        fr = self.frames[-1]
        if self.record:
            self.throws.append((self.st.pc, t, e.get("l"), fr.fn["file"] if fr.fn else None))
            self.thrown.append(self.throws[-1])
            self.throw_stack = [x.fn["n"] for x in self.frames if x.fn]
            if self.tries:
                tr, sv = self.tries[-1], self.st
                self.st = sv.copy()
                top = list(self.frames)
                while len(self.frames) >= max(getattr(tr, "frames", 0), 1):
                    f0 = self.frames[-1]
                    keep = getattr(tr, "guards", 0) if len(self.frames) == getattr(tr, "frames", 0) else 0
                    if len(f0.guards) > keep:
                        self.leave(f0, keep)
                    if len(self.frames) == 1:
                        break
                    self.frames.pop()
                self.frames[:] = top
                tr.append((self.st, t, len(self.throws) - 1))
                self.st = sv
        self.st.pc = FALSE
        return VOID

    def e_new(self, e):
        t, i = strip_ty(e.get("ty") or ""), e.get("init")
        if not e.get("array") and self.kind(e.get("ty") or "") in ("num", "bool", "ptr") and t not in self.p.cls:
            l = mk("loc", "l", -1, "new%d" % self.fresh(t)[1])
            self.locty[l] = e["ty"]
            self.st.s[l] = self.rv(i) if i else self.default(e["ty"])
            return mk("addr", l)
        if not e.get("array") and t in self.p.cls and i and i.get("k") == "ctor":
            return self.rv(i)
        return obj("new", *self.fresh(e.get("ty")))

    def e_delete(self, e):
        return VOID

    def e_other(self, e):
        for c in e.get("ch", []):
            self.rv(c)
        if e.get("n") == "CXXStdInitializerListExpr" and e.get("ch"):
            return self.rv(e["ch"][0])
        if e.get("n") not in ("sizeof",) and e.get("n"):
            raise Unknown("expression %s" % e.get("n"))
        return obj(*self.fresh("expr", e.get("n")))

    def e_ctor(self, e):
        args = [self.rv(a) for a in e.get("args", [])]
        t = strip_ty(e.get("ty"))
        if e["fn"] in self.p.fn or t in self.p.cls:
            return self.construct(t, e["fn"], args)
        if t.startswith("std::vector") or t.startswith("std::initializer_list"):
            if args and len(args) > 1 and args[-1].k == "obj" and args[-1].a[0] == "ctor" and str(args[-1].a[1]).startswith("std::allocator"):
                args = args[:-1]
            if not args:
                return mk("vec")
            if len(args) >= 1 and args[0].k == "vec" and (len(args) == 1 or "initializer_list" in e["fn"]):
                return args[0]
            n = args[0]
            if n.k == "num" and V.p_isconst(n.a[0]) and 0 <= V.p_constval(n.a[0]) <= self.maxloop and len(args) <= 2 and "initializer" not in e["fn"]:
                if len(args) == 2:
                    return mk("vec", *([args[1]] * int(V.p_constval(n.a[0]))))
                return mk("vec", *[self.default_value(elem_type(t)) for _ in range(int(V.p_constval(n.a[0])))])
            if len(args) >= 2 and args[0].k == "it" and args[1].k == "it" and args[0].a[0] is args[1].a[0]:
                i, j = self.it_pos(args[0]), self.it_pos(args[1])
                return mk("vec", *self.entries(self.it_coll(args[0]))[i:j])
        if t.startswith("std::vector") and len(args) >= 2 and all(x.k == "obj" and x.a[0] == "arrptr" for x in args[:2]) and args[0].a[1] is args[1].a[1]:
            i, j = (int(V.p_constval(x.a[2].a[0])) for x in args[:2])
            if 0 <= i <= j <= len(args[0].a[1].a):
                return mk("vec", *args[0].a[1].a[i:j])
        if t.startswith(MAPS + SETS):
            if not args or (args[0].k == "obj" and args[0].a[0] in ("ctor", "new") and "initializer_list" not in e["fn"]):
                return self.empty_container(t)
            if args[0].k in ("map", "set"):
                return args[0]
            if args[0].k == "vec":
                r = self.from_list(t, args[0])
                if r is not None:
                    return r
            if len(args) >= 2 and args[0].k == "it" and args[1].k == "it" and args[0].a[0] is args[1].a[0]:
                i, j = self.it_pos(args[0]), self.it_pos(args[1])
                r = self.from_list(t, mk("vec", *self.entries(self.it_coll(args[0]))[i:j]))
                if r is not None:
                    return r
        if "iterator" in t and len(args) == 1 and any(x.k == "it" for x in self.leaves(args[0])):
            return args[0]
        if len(args) == 1 and t.startswith(("std::function", "std::optional", "std::expected", "std::span", "std::basic_string_view")):
            return args[0]
        if t.startswith("std::pair") and len(args) == 2:
            return mk("vec", *args)
        if t.startswith("Eigen::"):
            r = self.array_ctor(e, t, args)
            if r is not None:
                return r
        return obj("ctor", t, *args)

    def default(self, t):
        k = self.kind(t or "double")
        return {"num": num(0), "bool": FALSE, "ptr": NULL, "str": V.string("")}.get(k) or obj(*self.fresh("default"))

    def construct(self, t, fid, args, o=None):
        if o is None:
            o = obj("new", *self.fresh(t))
            self.exact[o] = t
        self.exact.setdefault(o, t)
        f = self.p.fn.get(fid)
        c = self.p.cls.get(t)
        if f is None and not args and c is not None:
            return self.default_fields(t, o)
        if f is None or len(self.frames) > self.maxdepth:
            return o
        fr = self.push(f, o, args)
        fr.ctorcls = t
        done = set()
        written = {i.get("f"): i for i in f.get("inits") or [] if "f" in i}
        for i in f.get("inits") or []:
            if "base" in i and isinstance(i.get("e"), dict) and i["e"].get("k") == "ctor":
                a = [self.rv(x) for x in i["e"].get("args", [])]
                self.construct(strip_ty(i["e"]["ty"]), i["e"]["fn"], a, o)
            elif "deleg" in i and isinstance(i.get("deleg") or i.get("e"), dict):
                x = i.get("e") or i["deleg"]
                a = [self.rv(y) for y in x.get("args", [])]
                self.construct(t, x["fn"], a, o)
        for fd in (c["fields"] if c else []):
            i = written.get(fd["q"])
            loc = mk("loc", "f", o, fd["q"])
            if i is not None and isinstance(i.get("e"), dict):
                x = i["e"]
                if x.get("k") == "ctor" and strip_ty(x.get("ty")) in self.p.cls and self.kind(fd["ty"]) == "class":
                    a = [self.rv(y) for y in x.get("args", [])]
                    self.construct(strip_ty(x["ty"]), x["fn"], a, self.objat(loc))
                else:
                    self.store(loc, self.rv(x), fd["ty"])
            elif fd.get("init"):
                self.store(loc, self.rv(fd["init"]), fd["ty"])
            elif strip_ty(fd["ty"]).startswith(("std::vector",) + MAPS + SETS) and smart_inner(fd["ty"]) is None and not fd["ty"].strip().endswith(("*", "&")):
                self.store(loc, self.empty_container(fd["ty"]), fd["ty"])
            elif self.kind(fd["ty"]) == "class" and not fd["ty"].strip().endswith("&"):
                self.default_member(strip_ty(fd["ty"]), self.objat(loc))
            elif self.kind(fd["ty"]) == "str":
                self.store(loc, V.string(""), fd["ty"])
            elif smart_inner(fd["ty"]) is not None:
                self.store(loc, NULL, fd["ty"])
        if f.get("body"):
            self.exec(f["body"])
        self.pop_void(fr)
        return o

    def default_member(self, t, o):
        self.exact[o] = t
        cid = self.pick_ctor(t, [])
        if cid is not None:
            return self.construct(t, cid, [], o)
        return self.default_fields(t, o)

    def default_fields(self, cls, o):
        for c in list(self.p.bases(cls)):
            for fd in self.p.cls.get(c, {}).get("fields", []):
                loc = mk("loc", "f", o, fd["q"])
                if fd.get("init"):
                    self.frames.append(Frame(-1, None, o))
                    try:
                        self.store(loc, self.rv(fd["init"]), fd["ty"])
                    finally:
                        self.frames.pop()
                elif smart_inner(fd["ty"]) is not None:
                    self.store(loc, NULL, fd["ty"])
                elif self.kind(fd["ty"]) == "str":
                    self.store(loc, V.string(""), fd["ty"])
                elif self.kind(fd["ty"]) == "class" and not fd["ty"].strip().endswith("&"):
                    self.default_member(strip_ty(fd["ty"]), self.objat(loc))
                elif self.empty_container(fd["ty"]) is not None and not fd["ty"].strip().endswith(("*", "&")):
                    self.store(loc, self.empty_container(fd["ty"]), fd["ty"])
        return o

    # ---------------------------------------------------------------- calls
    def push(self, f, this, args):
        self.nf += 1
        fr = Frame(self.nf, f, this)
        for p, a in zip(f["params"], args):
            l = mk("loc", "l", fr.id, p["id"])
            ty = p["ty"]
            if a is not None and a.k == "loc":
                fr.env[p["id"]] = a
            else:
                fr.env[p["id"]] = l
                if a is not None:
                    self.st.s[l] = a
                    self.locty[l] = ty
        for p in f["params"][len(args):]:
            l = mk("loc", "l", fr.id, p["id"])
            fr.env[p["id"]] = l
            self.locty[l] = p["ty"]
            if p.get("def"):
                self.frames.append(fr)
                try:
                    self.st.s[l] = self.rv(p["def"])
                finally:
                    self.frames.pop()
        self.frames.append(fr)
        return fr

    def lookup(self, vid):
        fr = self.frames[-1]
        while fr is not None:
            if vid in fr.env:
                return fr.env[vid]
            fr = getattr(fr, "up", None)
        return None

    def pop_void(self, fr):
        self.frames.pop()
        for s, v in fr.rets:
            self.st = self.merge(s, self.st if self.st.pc is not FALSE else None)

    def clean(self, fr):
        for l in list(self.st.s):
            if l.a[0] == "l" and l.a[1] == fr.id:
                del self.st.s[l]

    def finish(self, fr, ret_ty):
        self.frames.pop()
        end = self.st
        outs = list(fr.rets)
        if end.pc is not FALSE:
            if fr.guards:
                self.leave(fr)
            outs.append((end, VOID))
        if not outs:
            self.st = end
            return VOID
        st, val = outs[-1]
        for s, v in reversed(outs[:-1]):
            if s.pc is FALSE:
                continue
            if val is not v:
                try:
                    val = ite(s.pc, v, val)
                except Unknown:
                    val = self.typed(self.fresh("ret"), ret_ty or "obj")
            st = self.merge(s, st)
        self.st = st
        self.clean(fr)
        return val

    def leave(self, fr, keep=0):
        """the destructors of the local objects of a frame"""
        for o in reversed(fr.guards[keep:]):
            f = self.destructor(self.exact.get(o))
            if f is not None and self.st.pc is not FALSE:
                self.inline(f, o, [])

    def destructor(self, cls):
        """the destructor of a class when it has something to do"""
        if cls not in self.p.cls:
            return None
        f = self.p.fn.get("%s::~%s()" % (cls, cls.rsplit("::", 1)[-1])) or next((g for g in self.p.fn.values() if g["n"] == "%s::~%s" % (cls, cls.rsplit("::", 1)[-1])), None)
        b = f and f.get("body")
        return f if b and any(b.get(k) for k in b if k not in ("k", "l", "e", "c") and isinstance(b[k], list)) else None

    def guard(self, v):
        """a local object leaving whose scope has an effect"""
        fr = self.frames[-1]
        if v.get("static") or v.get("ref") or v["ty"].strip().endswith(("*", "&")) or strip_ty(v["ty"]) not in self.p.cls:
            return
        o = self.st.s.get(fr.env.get(v["id"]))
        if o is not None and o.k == "obj" and o in self.exact and self.destructor(self.exact[o]) is not None:
            fr.guards.append(o)

    def inline(self, f, this, args):
        pc0 = self.st.pc
        fr = self.push(f, this, args)
        self.inlined.add(f["id"])
        self.exec(f["body"])
        v = self.finish(fr, f.get("ret"))
        # Within the call nothing was lost except through throws
        return v

    def call_fn(self, name_or_f, this, args, exact=None):
        """Client entry: inlines one function on a receiver."""
        f = name_or_f if isinstance(name_or_f, dict) else self.p.one(name_or_f)
        if f.get("virt") and this is not None and this in self.exact:
            f = self.p.fn[self.p.resolve(f["id"], self.exact[this])]
        if not self.frames:
            self.frames.append(Frame(0, f, this))
        return self.inline(f, this, args)

    def refarg(self, a, ty):
        """argument binding: locations for non const reference parameters and class lvalues"""
        if ty.endswith("&") and not ty.endswith("&&"):
            base = strip_ty(ty)
            s = a
            if s["k"] in ("ref", "mem", "idx") or (s["k"] == "un" and s["op"] == "*"):
                if not ty.startswith("const"):
                    try:
                        return self.lv(s)
                    except Unknown:
                        pass
        return None

    def e_call(self, e):
        n = e.get("n", "")
        h = self.hooks.get("precall")
        if h:
            r = h(self, e)
            if r is not None:
                return r
        recv = None
        short = n.rsplit("::", 1)[-1]
        if n in ("?", "?op"):
            return self.call_value(e)
        if n.startswith("std::function<") and e.get("op") == "()" and e.get("recv") is not None:
            return self.call_value(dict(e, callee=e["recv"]))
        r = self.builtin(e, n, short)
        if r is not None:
            return r
        if e.get("recv") is not None and not e.get("static"):
            recv = self.objof(e["recv"])
            if short == "operator()" and recv.k == "lam":
                ps = self.lams[recv.a[0]][0]["params"]
                ls = [self.refarg(a, q["ty"]) for a, q in zip(e.get("args", []), ps)]
                return self.call_lambda(recv, [l if l is not None else self.rv(a) for l, a in zip(ls, e.get("args", []))])
        fn = e.get("fn")
        tgt = self.targets(e, recv)
        f = self.p.fn.get(tgt[0]) if len(tgt) == 1 else None
        args = []
        for i, a in enumerate(e.get("args", [])):
            loc = None
            if f is not None and i < len(f["params"]):
                loc = self.refarg(a, f["params"][i]["ty"])
            args.append(loc if loc is not None else self.rv(a))
        if self.st.pc is FALSE:
            return VOID
        h = self.hooks.get("call")
        if h:
            r = h(self, e, n, recv, args, tgt)
            if r is not None:
                return r
        if short.startswith("Log") and n in ("LogError", "LogWarning", "LogMessage", "LogDebug", "LogInfo"):
            self.event(e, n, recv, args, None)
            return VOID
        if recv is not None and recv.k == "ite":
            ls = [x for x in self.leaves(recv) if x.k == "obj"]
            if len(ls) == 1 and all(x.k in ("obj", "null") for x in self.leaves(recv)):
                recv = ls[0]
                tgt = self.targets(e, recv)
                f = self.p.fn.get(tgt[0]) if len(tgt) == 1 else None
        if f is not None and f.get("body") and n not in self.opaque and f["n"] not in self.opaque and f["id"] not in self.opaque \
                and len(self.frames) <= self.maxdepth and sum(fr.fn is f for fr in self.frames) < self.recursion \
                and (recv is None or recv.k in ("obj", "ite", "null")):
            if not (recv is not None and recv.k == "ite" and not f.get("const")):
                this = recv if recv is not None else None
                return self.inline(f, this, args)
        return self.opaque_call(e, n, recv, args, tgt)

    def targets(self, e, recv):
        if recv is not None and e.get("virt"):
            c = None
            if recv.k == "obj":
                c = self.exact.get(recv)
            elif recv.k == "ite":
                cs = {self.exact.get(x) for x in self.leaves(recv) if x.k == "obj"}
                if len(cs) == 1:
                    c = cs.pop()
            if c:
                return [self.p.resolve(e["fn"], c)]
        return self.p.targets(e)

    def event(self, e, n, recv, args, ret):
        if self.record:
            fr = self.frames[-1]
            self.events.append(Event(self.st.pc, e.get("fn"), n, recv, [self.load(a, self.locty.get(a, "obj")) if a is not None and a.k == "loc" else a for a in args], e.get("l"),
                                     fr.fn["file"] if fr.fn else None, list(self.loops), ret, fr.fn["id"] if fr.fn else None))

    def opaque_call(self, e, n, recv, args, tgt):
        known = [t for t in tgt if t in self.p.fn]
        writes, reads = set(), set()
        pure = True
        if known and self.eff:
            for t in known:
                writes |= self.eff.writes(t)
                reads |= self.eff.reads(t)
            pure = not writes
        elif e.get("recv") is not None and e.get("const") is False and not n.startswith("std::"):
            pure = False
        avals = []
        for a in args:
            if a.k == "loc":
                v = self.load(a, self.locty.get(a, "obj"))
                avals.append(v)
            else:
                avals.append(a)
        ty = e.get("ret") or e.get("ty") or "obj"
        key = ["call", n]
        if recv is not None:
            key.append(recv.id)
        key += [a.id for a in avals]
        if known and reads:
            mem = tuple(sorted(((l.id, v.id) for l, v in self.st.s.items() if l.a[0] == "f" and l.a[2] in reads), key=repr))
            vers = tuple(sorted((q, t) for q, t in self.st.ver.items() if q in reads))
            if mem or vers:
                key.append(("mem",) + mem + vers)
        if not pure:
            key.append(self.fresh_n)
            self.fresh_n += 1
        k = self.kind(ty)
        if k == "void":
            ret = VOID
        elif k == "num":
            ret = nat(tuple(key))
        elif k == "bool":
            ret = V.bopaque(*key)
        else:
            ret = obj(*[x for x in key])
        self.event(e, n, recv, args, ret)
        for q in writes:
            self.havoc_field(q)
        # by reference arguments of unknown callees
        if not known:
            for a, ae in zip(args, e.get("args", [])):
                pass
        if e.get("recv") is not None and e.get("const") is False and n.startswith(CHANGERS) and short_of(n) in CHANGES:
            try:
                self.store(self.lv(e["recv"]), obj(*self.fresh("changed")))
                self.notes.append("%s is not followed" % n)
            except Unknown:
                pass
        for a in args:
            if a.k == "loc":
                self.st.s[a] = self.typed(self.fresh("out"), self.locty.get(a, "obj"))
            elif a.k == "lam":
                self.forget_effects(self.lams[a.a[0]][0]["body"])
        if strip_ty(ty) in self.p.cls and ret.k == "obj" and not self.sub_poly(strip_ty(ty)):
            self.exact.setdefault(ret, strip_ty(ty))
        return ret

    def sub_poly(self, c):
        return len(self.p.subs(c)) > 1

    def call_value(self, e):
        """call through a value (lambda, std::function, function pointer)"""
        cv = self.rv(e["callee"]) if e.get("callee") else None
        args = [self.rv(a) for a in e.get("args", [])]
        if cv is not None and cv.k == "lam":
            return self.call_lambda(cv, args)
        if cv is not None and cv.k == "fref" and len(self.frames) <= self.maxdepth:
            f = self.p.fn.get(cv.a[0])
            if f is not None and f.get("body") and len(f["params"]) >= len(args):
                return self.inline(f, None, args)
        self.event(e, "?", cv, args, None)
        return obj(*self.fresh("indirect"))

    def call_lambda(self, lam, args):
        le, up = self.lams[lam.a[0]]
        if len(self.frames) > self.maxdepth:
            return obj(*self.fresh("lam"))
        self.nf += 1
        fr = Frame(self.nf, up.fn, up.this)
        fr.up = up
        for c in le.get("caps", []):
            if isinstance(c, dict) and c.get("init"):
                self.frames.append(up)
                v = self.rv(c["init"])
                self.frames.pop()
                l = mk("loc", "l", fr.id, c["id"])
                fr.env[c["id"]] = l
                self.st.s[l] = v
        for p, a in zip(le["params"], args):
            if a.k == "loc":
                fr.env[p["id"]] = a
            else:
                l = mk("loc", "l", fr.id, p["id"])
                fr.env[p["id"]] = l
                self.st.s[l] = a
                self.locty[l] = p["ty"]
        self.frames.append(fr)
        self.exec(le["body"])
        return self.finish(fr, None)

    # ---------------------------------------------------------------- library
    def size_of(self, c):
        def f(x):
            if x.k == "vec":
                return num(len(x.a))
            if x.k == "obj":
                l = self.st.s.get(mk("loc", "size", x))
                if l is not None:
                    return l
            ver = None
            if x.k == "obj" and x.a[0] == "sub" and x.a[1].a[0] == "f":
                ver = self.st.ver.get(x.a[1].a[2])
            return nat(("size", x.id) + ((ver,) if ver else ()))
        return apply(f, c)

    def builtin(self, e, n, short):
        A = e.get("args", [])
        R0 = e.get("recv")
        op = e.get("op")
        r = self.lib_call(e, n, short)
        if r is not None:
            return r
        if n.startswith("__builtin_") and e.get("recv") is None:
            if short.startswith(("__builtin_inf", "__builtin_huge_val")):
                return nat(("inf",))
            if short.startswith("__builtin_nan"):
                return nat(("nan",))
        if n in FREEMATH and e.get("recv") is None and e.get("fn") not in self.p.fn:
            n = "std::" + {"fmaxf": "fmax", "fminf": "fmin"}.get(n, n[:-1] if n[-1] == "f" and n[:-1] in FREEMATH else n)
            short = n[5:]
        if n.startswith("std::") and e.get("recv") is None:
            if short in ("max", "min") and len(A) == 2:
                a, b = self.rv(A[0]), self.rv(A[1])
                return self.safe(V.v_max if short == "max" else V.v_min, a, b)
            if short in ("max", "min") and len(A) == 1:
                v = self.rv(A[0])
                if v.k == "vec" and v.a:
                    r = v.a[0]
                    for x in v.a[1:]:
                        r = self.safe(V.v_max if short == "max" else V.v_min, r, x)
                    return r
                return None
            if short == "clamp" and len(A) == 3:
                x, lo, hi = [self.rv(a) for a in A]
                return self.safe(lambda: V.v_min(V.v_max(x, lo), hi))
            if short in ("abs", "fabs") and len(A) == 1:
                return self.safe(V.v_abs, self.rv(A[0]))
            if short in MATH1 and len(A) == 1:
                v = self.rv(A[0])
                return self.safe(lambda: V.fn_atom("round" if short == "lround" else short, v))
            if short in ("pow",) and len(A) == 2:
                a, b = self.rv(A[0]), self.rv(A[1])
                return self.safe(lambda: V.fn_atom("pow", a, b))
            if short in ("fmax", "fmin"):
                a, b = self.rv(A[0]), self.rv(A[1])
                return self.safe(V.v_max if short == "fmax" else V.v_min, a, b)
            if short in ("isinf", "isnan", "isfinite"):
                v = self.rv(A[0])

                def f(x):
                    if x.k == "num":
                        if V.p_isconst(x.a[0]):
                            return V.boolean(short == "isfinite")
                        ds = {V.atom_desc(a)[0] for m, c in x.a[0] for a, ex in m}
                        if ds <= {"inf"}:
                            return V.boolean(short == "isinf")
                        if ds <= {"nan"}:
                            return V.boolean(short == "isnan")
                        if ds <= {"name"} and self.named_finite:
                            return V.boolean(short == "isfinite")
                    if short == "isfinite":
                        return V.b_not(V.b_or(V.bopaque("isinf", x.id), V.bopaque("isnan", x.id)))
                    return V.bopaque(short, x.id)
                return apply(f, v)
            if n.startswith("std::numeric_limits"):
                if short == "infinity":
                    return nat(("inf",))
                if short in ("quiet_NaN", "signaling_NaN"):
                    return nat(("nan",))
                if short == "epsilon":
                    return num(2.220446049250313e-16)
                return nat((short, n.split("<", 1)[-1].split(">")[0]))
            if n.startswith("std::make_unique") or n.startswith("std::make_shared"):
                args = [self.rv(a) for a in A]
                t = smart_inner(e.get("ty") or e.get("ret"))
                if t in self.p.cls:
                    cid = self.pick_ctor(t, A)
                    if cid:
                        return self.construct(t, cid, args)
                o = obj("new", *self.fresh(t or "obj"))
                if t in self.p.cls:
                    self.exact[o] = t
                return o
            if short in ("accumulate", "reduce") and len(A) in (3, 4):
                r = self.accumulate(e, A)
                if r is not None:
                    return r
            if short == "for_each" and len(A) == 3:
                r = self.for_each(e, A)
                if r is not None:
                    return r
            if short in ("fill",) and len(A) == 3:
                c = self.iter_coll(A[0], A[1])
                if c is not None:
                    v = self.rv(A[2])
                    if all(x.k == "vec" for x in self.leaves(c)):
                        b = strip_cast(A[0])
                        self.store(self.lv(b.get("recv") or b["args"][0]), apply(lambda x: mk("vec", *([v] * len(x.a))), c))
                        return VOID
                    self.fill(c, v)
                    return VOID
            if short == "unexpected" and len(A) == 1:
                v = self.rv(A[0])
                return obj("unexpected", v)
            if short in ("format", "to_string"):
                vs = [self.rv(a) for a in A]
                r = self.known_text(short, vs)
                if r is not None:
                    return r
                return obj(*self.fresh("text"))
            if short == "swap" and len(A) == 2:
                la, lb = self.lv(A[0]), self.lv(A[1])
                va, vb = self.load(la, A[0].get("ty")), self.load(lb, A[1].get("ty"))
                self.store(la, vb)
                self.store(lb, va)
                return VOID
            if short == "distance" and len(A) == 2:
                return None
        if short in ("abs", "fabs", "exp", "pow", "sqrt", "floor", "ceil", "log", "tanh") and "::" not in n and e.get("recv") is None:
            return self.builtin(dict(e, n="std::" + n), "std::" + n, short)
        if e.get("recv") is not None and n.startswith(("std::vector", "std::array", "std::initializer_list", "std::deque", "std::basic_string",
                                                        "Eigen::", "std::map", "std::unordered_map", "std::set", "std::span")):
            R = e["recv"]
            if n.startswith("Eigen::"):
                r = self.array_call(e, short, op, R, A)
                if r is not None:
                    return r
            if n.startswith("std::basic_string") and short in ("size", "length", "empty"):
                r = self.string_method(e, short, R, A)
                if r is not None:
                    return r
            if short in ("size", "rows") or (short == "length"):
                return self.size_of(self.objof(R))
            if short == "empty":
                return self.safe(lambda: V.eq(self.size_of(self.objof(R)), num(0)))
            if n.startswith("std::basic_string"):
                r = self.string_method(e, short, R, A)
                if r is not None:
                    return r
            isvec = n.startswith("std::vector")
            if isvec and short in ("push_back", "emplace_back"):
                c = self.objof(R)
                vals = [self.rv(a) for a in A]
                v = vals[0] if len(vals) == 1 else obj("agg", *vals)
                if short == "emplace_back" and len(vals) != 1:
                    t = elem_type(self.numty(R) or "")
                    if t and strip_ty(t) in self.p.cls:
                        cid = self.pick_ctor(strip_ty(t), A)
                        if cid:
                            v = self.construct(strip_ty(t), cid, vals)
                v = self.by_value(v, elem_type(self.numty(R) or "")) if short == "push_back" else v
                if any(x.k == "vec" for x in self.leaves(c)) and all(x.k == "vec" for x in self.leaves(c)) and not self.loops:
                    l = self.lv(R)
                    self.store(l, apply(lambda x: mk("vec", *(list(x.a) + [v])), c))
                    return VOID
                self.event(e, n, c, [v], None)
                if c.k == "obj":
                    sz = self.size_of(c)
                    self.st.s[mk("loc", "size", c)] = V.add(sz, num(1))
                    self.st.s[mk("loc", "e", c, sz)] = v
                else:
                    try:
                        l = self.lv(R)
                        self.store(l, obj(*self.fresh("vec")))
                    except Unknown:
                        pass
                return VOID
            if isvec and short in ("assign",) and len(A) == 2:
                l = self.lv(R)
                nn, v = self.rv(A[0]), self.rv(A[1])
                if nn.k == "num" and V.p_isconst(nn.a[0]) and 0 <= V.p_constval(nn.a[0]) <= self.maxloop:
                    self.store(l, mk("vec", *([v] * int(V.p_constval(nn.a[0])))))
                else:
                    self.store(l, obj("filled", nn, v))
                return VOID
            if isvec and short in ("insert", "append_range", "assign") and len(A) in (2, 3) and not self.loops:
                r = self.vec_insert(e, short, R, A)
                if r is not None:
                    return r
            if isvec and short == "clear":
                self.store(self.lv(R), mk("vec"))
                return VOID
            if isvec and short in ("assign",) and len(A) == 1:
                self.store(self.lv(R), self.rv(A[0]))
                return VOID
            if isvec and short in ("reserve", "shrink_to_fit"):
                for a in A:
                    self.rv(a)
                return VOID
            if isvec and short == "resize":
                l = self.lv(R)
                vs = [self.rv(a) for a in A]
                cur = self.load(l, self.numty(R) or "obj")
                if vs and vs[0].k == "num" and V.p_isconst(vs[0].a[0]) and 0 <= V.p_constval(vs[0].a[0]) <= 32 and all(x.k == "vec" for x in self.leaves(cur)):
                    m = int(V.p_constval(vs[0].a[0]))
                    dv = vs[1] if len(vs) > 1 else self.default(elem_type(self.numty(R) or "") or "double")
                    self.store(l, apply(lambda x: mk("vec", *(list(x.a[:m]) + [dv] * (m - len(x.a)))), cur))
                    return VOID
                self.store(l, obj("resized", cur, *vs))
                return VOID
            if isvec and op == "=":
                l = self.lv(R)
                v = self.rv(A[0])
                self.store(l, v)
                return v
            if n.startswith("std::basic_string") and op == "=":
                l = self.lv(R)
                v = self.rv(A[0])
                self.store(l, v)
                return v
            if short == "data" and not A and n.startswith(("std::vector", "std::array")):
                c = self.objof(R)
                l = self.vec_lv(R, c)
                if l is not None:
                    return mk("addr", mk("loc", "ve", l, 0))
            if short in ("front", "back") and n.startswith(("std::vector", "std::array")):
                c = self.objof(R)
                if c.k == "vec" and c.a:
                    return c.a[0] if short == "front" else c.a[-1]
                i = num(0) if short == "front" else V.sub(self.size_of(c), num(1))
                return self.load(mk("loc", "e", c, i), e.get("ty") or "obj")
            if n.startswith("Eigen::") and op == "=":
                l = self.lv(R)
                v = self.rv(A[0])
                if not A[0].get("k") == "ref":
                    pass
                self.store(l, v)
                return v
            if n.startswith("Eigen::") and short in ("setZero", "setConstant", "fill"):
                l = self.lv(R)
                v = self.rv(A[-1]) if A else num(0)
                c = self.load(l, self.numty(R) or "obj")
                self.store(l, obj("filled", self.size_of(c) if c.k == "obj" else num(0), v))
                return VOID
        if n.startswith("Eigen::"):
            r = self.eigen_vec(e, n, short, op, A)
            if r is not None:
                return r
        if op in ("+", "-", "*", "/") and n.startswith("Eigen::"):
            vs = ([self.rv(e["recv"])] if e.get("recv") is not None else []) + [self.rv(a) for a in A]
            return self.eigen(op, vs)
        if op in ("==", "!=") and (n.startswith("std::operator") or "operator==" in n or "operator!=" in n):
            vs = ([self.rv(e["recv"])] if e.get("recv") is not None else []) + [self.rv(a) for a in A]
            if len(vs) == 2:
                try:
                    r = V.eq(vs[0], vs[1])
                    return r if op == "==" else V.b_not(r)
                except Unknown:
                    return V.bopaque("cmp", op, vs[0].id, vs[1].id)
        if op == "+=" and n.startswith("std::basic_string") and R0 is not None and len(A) == 1:
            l = self.lv(R0)
            x, y = self.load(l, "std::string"), self.rv(A[0])
            if y.k == "num" and V.p_isconst(y.a[0]):
                y = V.string(chr(int(V.p_constval(y.a[0]))))
            r = apply(lambda p, q: V.string(p.a[0] + q.a[0]) if p.k == "str" and q.k == "str" else obj("concat", p, q), x, y)
            self.store(l, r)
            return r
        if op == "+" and n.startswith("std::operator+"):
            vs = [self.rv(a) for a in A]
            if len(vs) == 2:
                return apply(lambda p, q: V.string(p.a[0] + q.a[0]) if p.k == "str" and q.k == "str" else obj("concat", p, q), vs[0], vs[1])
        if op == "=" and e.get("recv") is not None and (smart_inner(e.get("ty")) is not None or n.startswith(("std::unique_ptr", "std::function", "std::pair", "std::optional", "std::shared_ptr", "std::expected", "std::unexpected"))):
            l = self.lv(e["recv"])
            v = self.rv(A[0])
            self.store(l, v)
            return v
        if n.startswith("std::expected"):
            r = self.rv(e["recv"]) if e.get("recv") is not None else None
            if r is not None and short in ("operator bool", "has_value"):
                return self.isok(r)
        return None

    def known_text(self, short, vs):
        """std::format / std::to_string of values that are known"""
        def txt(v):
            if v.k == "str":
                return v.a[0]
            if v.k == "num" and V.p_isconst(v.a[0]) and V.p_constval(v.a[0]).denominator == 1:
                return str(int(V.p_constval(v.a[0])))
            return None
        ts = [txt(v) for v in vs]
        if any(t is None for t in ts) or not ts:
            return None
        if short == "to_string":
            return V.string(ts[0]) if len(ts) == 1 else None
        parts = ts[0].split("{}")
        if len(parts) != len(ts) or "{" in "".join(parts):
            return None
        return V.string("".join(p + t for p, t in zip(parts, ts[1:] + [""])))

    def string_method(self, e, short, R, A):
        """methods of std::string(_view) on texts that are known"""
        if short not in ("size", "length", "empty", "find", "rfind", "compare", "starts_with", "ends_with", "contains", "substr", "c_str", "data",
                         "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "erase"):
            return None
        x = self.objof(R)
        if x.k == "loc":
            x = self.load(x, "std::string")
        if x.k != "str":
            return None
        s = x.a[0]
        vs = [self.rv(a) for a in A]
        ks = []
        for v in vs:
            if v.k == "str":
                ks.append(v.a[0])
            elif v.k == "num" and V.p_isconst(v.a[0]):
                ks.append(int(V.p_constval(v.a[0])))
            else:
                return None
        if short in ("find", "rfind", "contains", "starts_with", "ends_with") and ks and isinstance(ks[0], int):
            ks[0] = chr(ks[0])
        npos = 2 ** 64 - 1
        if short in ("c_str", "data"):
            return x
        if short in ("size", "length"):
            return num(len(s))
        if short == "empty":
            return V.boolean(not s)
        if short in ("find", "rfind") and ks and isinstance(ks[0], str):
            pos = ks[1] if len(ks) > 1 else (0 if short == "find" else npos)
            if pos < 0:
                pos = npos
            i = s.find(ks[0], min(pos, len(s) + 1)) if short == "find" else s.rfind(ks[0], 0, min(pos, len(s)) + len(ks[0]))
            return num(npos if i < 0 else i)
        if short.startswith(("find_first", "find_last")) and ks:
            cs = ks[0] if isinstance(ks[0], str) else chr(ks[0])
            first = "first" in short
            pos = ks[1] if len(ks) > 1 else (0 if first else npos)
            pos = npos if pos < 0 else pos
            hit = [i for i, ch in enumerate(s) if (ch in cs) != ("not" in short) and (i >= pos if first else i <= pos)]
            return num((hit[0] if first else hit[-1]) if hit else npos)
        if short == "erase":
            if not all(isinstance(k, int) for k in ks) or len(ks) > 2:
                return None
            pos, cnt = (ks + [0])[0], ks[1] if len(ks) > 1 else npos
            pos = pos % 2 ** 64          # npos + 1 wraps around
            if pos > len(s):
                return None
            v = V.string(s[:pos] + (s[pos + cnt:] if 0 <= cnt < len(s) else ""))
            self.store(self.lv(R), v)
            return v
        if short in ("starts_with", "ends_with", "contains") and isinstance(ks[0], str):
            return V.boolean({"starts_with": s.startswith, "ends_with": s.endswith, "contains": lambda q: q in s}[short](ks[0]))
        if short == "substr":
            pos, cnt = (ks + [0, npos])[0] if ks else 0, ks[1] if len(ks) > 1 else npos
            return V.string(s[pos:] if cnt < 0 or cnt >= len(s) else s[pos:pos + cnt])
        if short == "compare":
            if len(ks) == 1 and isinstance(ks[0], str):
                t = ks[0]
            elif len(ks) == 3 and isinstance(ks[2], str):
                s, t = s[ks[0]:ks[0] + ks[1]], ks[2]
            else:
                return None
            return num((s > t) - (s < t))
        return None

    def isok(self, r):
        def f(x):
            if x.k == "obj" and (x.a[0] == "unexpected" or x.a[0] == "ctor" and any(str(y).startswith("std::unexpected<") for y in x.a[1:2])):
                return FALSE
            if x.k == "obj" and x.a[0] in ("ctor", "new"):
                return TRUE
            if x.k in ("vec", "void"):
                return TRUE
            return V.bopaque("ok", x.id)
        return apply(f, r)

    def vec_insert(self, e, short, R, A):
        """insertion of a known range at the end or the start of a known vector"""
        def strip(x):
            x = strip_cast(x)
            while x.get("k") == "ctor" and len(x.get("args") or []) == 1 and "__normal_iterator" in x.get("n", ""):
                x = strip_cast(x["args"][0])
            return x
        cur = self.objof(R)
        if cur.k != "vec":
            return None
        if short == "assign":
            if len(A) != 2:
                return None
            src = self.iter_coll(strip(A[0]), strip(A[1]))
            if src is None or src.k != "vec":
                return None
            self.store(self.lv(R), src)
            return VOID
        pos = strip(A[0])
        nm_ = pos.get("n", "").rsplit("::", 1)[-1]
        if nm_ not in ("end", "cend", "begin", "cbegin") or pos.get("recv") is None or self.lv(pos["recv"]) is not self.lv(R):
            return None
        if len(A) == 3:
            src = self.iter_coll(strip(A[1]), strip(A[2]))
            if src is None or src.k != "vec":
                return None
            add = list(src.a)
        elif len(A) == 2:
            add = [self.rv(A[1])]
        else:
            return None
        self.store(self.lv(R), mk("vec", *(list(cur.a) + add if nm_ in ("end", "cend") else add + list(cur.a))))
        return VOID

    def eigen_vec(self, e, n, short, op, A):
        """arrays whose elements are known one by one"""
        R = e.get("recv")
        if R is None and short in ("Zero", "Ones", "Constant") and A:
            vs = [self.rv(a) for a in A]
            if len(vs) == (3 if short == "Constant" else 2) and all(v.k == "num" and V.p_isconst(v.a[0]) and 0 <= V.p_constval(v.a[0]) <= 64 for v in vs[:2]):
                x = num(0) if short == "Zero" else num(1) if short == "Ones" else vs[2]
                return mk("vec", *[mk("vec", *[x] * int(V.p_constval(vs[1].a[0])))] * int(V.p_constval(vs[0].a[0])))
            if len(vs) == (2 if short == "Constant" else 1) and vs[0].k == "num" and V.p_isconst(vs[0].a[0]) and 0 <= V.p_constval(vs[0].a[0]) <= 64:
                return mk("vec", *([num(0) if short == "Zero" else num(1) if short == "Ones" else vs[1]] * int(V.p_constval(vs[0].a[0]))))
            return None

        def known(v):
            if v.k == "ite" and not all(l.k in ("num", "bool") for l in self.leaves(v)):
                return False
            return v.k in ("vec", "num", "ite") or v in (TRUE, FALSE)

        def elementwise(f, x, y):
            return self.array_map(f, x, y)
        if op in ("+", "-", "*", "/", "<", "<=", ">", ">=") and (R is not None) + len(A) == 2:
            vs = ([self.rv(R)] if R is not None else []) + [self.rv(a) for a in A]
            if all(known(v) for v in vs) and any(v.k == "vec" for v in vs):
                g = {"+": V.add, "-": V.sub, "*": V.mul, "/": V.div, "<": V.lt, "<=": V.le, ">": lambda p, q: V.lt(q, p), ">=": lambda p, q: V.le(q, p)}[op]
                return elementwise(g, *vs)
            return None
        if op in ("+=", "-=", "*=", "/=") and R is not None and len(A) == 1:
            l = self.lv(R)
            x, y = self.load(l, self.numty(R) or "obj"), self.rv(A[0])
            if x.k == "vec" and known(y):
                v = elementwise({"+": V.add, "-": V.sub, "*": V.mul, "/": V.div}[op[0]], x, y)
                if v is not None:
                    self.store(l, v)
                    return v
            if x.k == "obj" or y.k == "obj":
                v = self.eigen(op[0], [x, y])
                self.store(l, v)
                return v
            return None
        if R is not None and short in ("abs", "all", "any", "sum", "maxCoeff", "minCoeff", "setZero", "setConstant", "eval", "array", "matrix"):
            x = self.rv(R)
            if x.k != "vec":
                return None
            if short == "abs":
                return mk("vec", *[V.v_abs(p) for p in x.a])
            if short in ("eval", "array", "matrix"):
                return x
            if short in ("all", "any"):
                r = TRUE if short == "all" else FALSE
                for p in x.a:
                    r = (V.b_and if short == "all" else V.b_or)(r, V.tobool(p))
                return V.prune(r, self.facts) if self.facts else r
            if short == "sum":
                r = num(0)
                for p in self.array_flat(x):
                    r = V.add(r, p)
                return r
            if short in ("maxCoeff", "minCoeff") and x.a:
                r = x.a[0]
                for p in x.a[1:]:
                    r = (V.v_max if short == "maxCoeff" else V.v_min)(r, p)
                return r
            if short in ("setZero", "setConstant"):
                v = num(0) if short == "setZero" else self.rv(A[-1])
                self.store(self.lv(R), self.array_map(lambda p, q: q, x, v))
                return VOID
        return None

    def eigen(self, op, vs):
        """element-wise arithmetic on arrays: linear combinations stay comparable"""
        def f(*xs):
            xs = [x if x.k == "num" else nat(("arr", x.id)) for x in xs]
            if len(xs) == 1:
                return V.neg(xs[0]) if op == "-" else xs[0]
            return {"+": V.add, "-": V.sub, "*": V.mul, "/": V.div}[op](xs[0], xs[1])
        try:
            return apply(f, *vs)
        except Unknown:
            return nat(self.fresh("eig"))

    def pick_ctor(self, t, A):
        cands = [m for m in self.p.cls[t]["methods"] if m["name"] == t.rsplit("::", 1)[-1] and m["id"] in self.p.fn and
                 not (len(self.p.fn[m["id"]]["params"]) == 1 and strip_ty(self.p.fn[m["id"]]["params"][0]["ty"]) == t)]
        ok = []
        for m in cands:
            ps = self.p.fn[m["id"]]["params"]
            req = sum(1 for q in ps if not q.get("def"))
            if req <= len(A) <= len(ps):
                ok.append(m["id"])
        if len(ok) == 1:
            return ok[0]
        best = []
        for i in ok:
            ps = self.p.fn[i]["params"]
            s = 0
            for q, a in zip(ps, A):
                ka = self.kind(self.numty(a) or "obj") if a["k"] not in ("str",) else "str"
                if ka == self.kind(q["ty"]):
                    s += 1
                if strip_ty(self.numty(a) or "") == strip_ty(q["ty"]):
                    s += 1
            best.append((s, i))
        best.sort(reverse=True)
        return best[0][1] if best else None

    def fill(self, c, v):
        if c.k == "obj" and c.a[0] == "sub":
            loc = c.a[1]
            for l in list(self.st.s):
                if l.a[0] == "e" and l.a[1] is c:
                    del self.st.s[l]
            self.st.s[loc] = obj("filled", self.size_of(c), v)

    def iter_coll(self, b, e):
        """collection c for the iterator pair c.begin(), c.end()"""
        b, e = strip_cast(b), strip_cast(e)
        if b.get("k") == "call" and e.get("k") == "call" and b["n"].rsplit("::", 1)[-1] in ("begin", "cbegin") and e["n"].rsplit("::", 1)[-1] in ("end", "cend"):
            rb = b.get("recv") or (b["args"][0] if b.get("args") else None)
            re_ = e.get("recv") or (e["args"][0] if e.get("args") else None)
            if rb is None or re_ is None:
                return None
            x, y = self.objof(rb), self.objof(re_)
            if x is y:
                return x
        return None

    def accumulate(self, e, A):
        c = self.iter_coll(A[0], A[1])
        if c is None:
            return None
        acc = self.rv(A[2])
        t = elem_type(self.numty(strip_cast(A[0]).get("recv") or {"k": ""}) or "") or "double"
        lam = self.rv(A[3]) if len(A) == 4 else None
        if c.k == "vec":
            for x in c.a:
                acc = self.call_lambda(lam, [acc, x]) if lam is not None and lam.k == "lam" else self.safe(V.add, acc, x)
            return acc
        idx = nat(("i", len(self.loops)))
        dom = mk("dom", num(0), self.size_of(c))
        self.loops.append(Loop(dom, idx, c))
        try:
            el = mk("loc", "e", c, idx)
            x = self.load(el, t)
            if lam is None:
                f = x
            elif lam.k == "lam":
                ph = nat(("phi", "acc", len(self.loops)))
                r = self.call_lambda(lam, [ph, x])
                f = self.safe(V.sub, r, ph)
                if any(a in V.support(f) for a in [V.atom(("phi", "acc", len(self.loops)))]):
                    return nat(self.fresh("acc"))
            else:
                return nat(self.fresh("acc"))
        finally:
            lp = self.loops.pop()
        return self.safe(V.add, acc, self.summation(lp, f))

    def for_each(self, e, A):
        c = self.iter_coll(A[0], A[1])
        lam = self.rv(A[2])
        if c is None or lam.k != "lam":
            return None
        le = self.lams[lam.a[0]][0]
        p = le["params"][0]
        ty = p["ty"]

        def body(elem_loc, elem_val):
            self.call_lambda(lam, [elem_loc if p.get("ref") and elem_loc is not None else elem_val])
        self.iterate(c, ty, body)
        return VOID

    # ---------------------------------------------------------------- statements
    def exec(self, s):
        if s is None or self.st.pc is FALSE:
            return
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            self.notes.append("statement %s" % s["k"])
            return
        if s["k"] in ("block", "nop", "label", "break", "continue"):
            return m(s)
        s0 = self.st.copy()
        nf, nl, fr, rec, hk = len(self.frames), len(self.loops), self.frames[-1], self.record, self.hooks
        nr, br, cn = len(fr.rets), [len(x) for x in fr.brk], [len(x) for x in fr.cnt]
        try:
            m(s)
        except V.Budget:
            raise
        except Unknown as u:
            self.notes.append("%s:%s %s" % (fr.fn and fr.fn["file"], s.get("l"), u))
            del self.frames[nf:], self.loops[nl:], fr.rets[nr:], fr.brk[len(br):], fr.cnt[len(cn):]
            for x, n in list(zip(fr.brk, br)) + list(zip(fr.cnt, cn)):
                del x[n:]
            self.record, self.hooks = rec, hk
            self.st = s0
            self.forget(s)

    def forget(self, s):
        """the statement could not be interpreted: forget what it may change"""
        fr = self.frames[-1]
        pc0 = self.st.pc
        if s["k"] == "return":
            v = self.typed(self.fresh("unknown"), fr.fn.get("ret") if fr.fn else "obj")
            self.forget_effects(s)
            fr.rets.append((self.st.copy(), v))
            self.st.pc = FALSE
            return
        if s["k"] == "if":
            self.forget_effects(s.get("c") or {"k": "nop"})
            c = V.bopaque(*self.fresh("cond"))
            s0 = self.st
            self.st = s0.copy()
            self.st.pc = V.b_and(pc0, c)
            self.exec(s["t"])
            a = self.st
            self.st = s0.copy()
            self.st.pc = V.b_and(pc0, V.b_not(c))
            self.exec(s.get("e"))
            b = self.st
            self.st = b if a.pc is FALSE else (a if b.pc is FALSE else self.merge(a, b))
            return
        self.forget_effects(s)
        if s["k"] == "decl":
            for v in s["vars"]:
                l = mk("loc", "l", fr.id, v["id"])
                fr.env[v["id"]] = l
                self.locty[l] = v["ty"]
                self.st.s[l] = self.typed(self.fresh("unknown"), v["ty"])
        if any(x.get("k") in ("return", "throw") for x in walk(s)):
            self.st.pc = V.b_and(self.st.pc, V.bopaque(*self.fresh("cond")))

    def forget_effects(self, s):
        from .effects import base_field
        for x in walk(s):
            k = x.get("k")
            tgt = None
            if k == "asg":
                tgt = x["a"]
            elif k == "un" and x["op"] in ("++", "--", "p++", "p--"):
                tgt = x["e"]
            elif k == "call":
                for t in self.p.targets(x):
                    if t in self.p.fn and self.eff:
                        for q in self.eff.writes(t):
                            self.havoc_field(q)
                for a in ([x["recv"]] if x.get("recv") is not None and not x.get("const") else []) + list(x.get("args", [])):
                    self.forget_target(a)
            if tgt is not None:
                self.forget_target(tgt)

    def forget_target(self, e):
        from .effects import base_field
        b = base_field(e)
        if b is not None:
            self.havoc_field(b["f"])
        y = strip_cast(e)
        while isinstance(y, dict) and y.get("k") in ("idx", "mem") or (isinstance(y, dict) and y.get("k") == "un" and y["op"] in ("*", "&")):
            y = strip_cast(y["b"] if y["k"] in ("idx", "mem") else y["e"])
        if isinstance(y, dict) and y.get("k") == "ref" and y.get("dk") in ("local", "param"):
            l = self.lookup(y["id"])
            if l is not None and l in self.st.s:
                self.st.s[l] = self.typed(self.fresh("unknown"), self.locty.get(l, "obj"))

    def s_block(self, s):
        fr = self.frames[-1]
        n0 = len(fr.guards)
        for x in s["s"]:
            if self.st.pc is FALSE:
                break
            self.exec(x)
        if len(fr.guards) > n0 and not (fr.fn and fr.fn.get("body") is s):
            if self.st.pc is not FALSE:
                self.leave(fr, n0)
            del fr.guards[n0:]

    def s_expr(self, s):
        if s.get("e"):
            self.rv(s["e"])

    def s_nop(self, s):
        pass

    def s_label(self, s):
        self.exec(s.get("s"))

    def s_decl(self, s):
        for v in s["vars"]:
            self.declare(v)
            self.guard(v)

    def declare(self, v):
        fr = self.frames[-1]
        l = mk("loc", "l", fr.id, v["id"])
        if v.get("static"):
            l = mk("loc", "sl", fr.fn["id"] if fr.fn else "", v["id"])
            if l in self.st.s:
                fr.env[v["id"]] = l
                return
        self.locty[l] = v["ty"]
        if v.get("bind"):
            val = self.rv(v["init"]) if v.get("init") else None
            for i, b in enumerate(v["bind"]):
                bl = mk("loc", "l", fr.id, b["id"])
                fr.env[b["id"]] = bl
                self.st.s[bl] = val.a[i] if val is not None and val.k == "vec" and i < len(val.a) else obj("bind", val.id if val is not None else 0, i)
            return
        if v.get("ref") and v.get("init") is not None:
            i = strip_cast(v["init"])
            if i["k"] in ("ref", "mem", "idx") or (i["k"] == "un" and i["op"] == "*") or (i["k"] == "call" and i["n"].rsplit("::", 1)[-1] in ("front", "back")):
                try:
                    fr.env[v["id"]] = self.lv(i)
                    return
                except Unknown:
                    pass
        fr.env[v["id"]] = l
        if v.get("init") is not None:
            val = self.rv(v["init"])
            if self.kind(v["ty"]) == "num" and val.k in ("num", "ite", "bool"):
                if strip_ty(v["ty"]) in INTTY and self.numty(v["init"]) in ("double", "float"):
                    val = V.fn_atom("trunc", val)
            self.st.s[l] = val
        else:
            t = strip_ty(v["ty"])
            if self.empty_container(t) is not None:
                self.st.s[l] = self.empty_container(t)
            elif self.kind(v["ty"]) in ("num", "bool", "ptr"):
                self.st.s[l] = self.typed(self.fresh("uninit", v["n"]), v["ty"])
            else:
                o = obj("new", *self.fresh(t))
                if t in self.p.cls:
                    self.exact[o] = t
                    self.default_fields(t, o)
                self.st.s[l] = o if self.kind(v["ty"]) != "str" else V.string("")

    def s_if(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("var"):
            self.declare(s["var"])
            if s.get("c") is None:
                return
        c = self.cond(s["c"])
        if self.st.pc is FALSE:
            return
        if c is TRUE:
            return self.exec(s["t"])
        if c is FALSE:
            return self.exec(s.get("e"))
        s0 = self.st
        pc0 = s0.pc
        self.st = s0.copy()
        self.st.pc = pa = V.b_and(pc0, c)
        self.exec(s["t"])
        a = self.st
        self.st = s0.copy()
        self.st.pc = pb = V.b_and(pc0, V.b_not(c))
        self.exec(s.get("e"))
        b = self.st
        if a.pc is FALSE and b.pc is FALSE:
            self.st = a
        elif a.pc is FALSE:
            self.st = b
        elif b.pc is FALSE:
            self.st = a
        else:
            whole = a.pc is pa and b.pc is pb
            self.st = self.merge(a, b, c if whole else None)
            if whole:
                self.st.pc = pc0

    def s_return(self, s):
        v = self.rv(s["e"]) if s.get("e") else VOID
        if self.st.pc is FALSE:
            return
        fr = self.frames[-1]
        if fr.guards:
            self.leave(fr)
            if self.st.pc is FALSE:
                return
        fr.rets.append((self.st.copy(), v))
        self.st.pc = FALSE

    def s_break(self, s):
        self.frames[-1].brk[-1].append(self.st.copy())
        self.st.pc = FALSE

    def s_continue(self, s):
        self.frames[-1].cnt[-1].append(self.st.copy())
        self.st.pc = FALSE

    def s_switch(self, s):
        if s.get("init"):
            self.exec(s["init"])
        if s.get("var"):
            self.declare(s["var"])
        v = self.rv(s["c"])
        items = []          # flattened (labels, stmt)

        def flat(x, labels):
            if x["k"] == "case":
                flat(x["s"], labels + [x["v"]]) if x.get("s") else items.append((labels + [x["v"]], None))
            elif x["k"] == "default":
                flat(x["s"], labels + ["default"]) if x.get("s") else items.append((labels + ["default"], None))
            else:
                items.append((labels, x))
        for x in s["b"]["s"]:
            flat(x, [])
        fr = self.frames[-1]
        fr.brk.append([])
        s0 = self.st
        pc0 = s0.pc
        allc = []
        conds = {}
        for i, (ls, x) in enumerate(items):
            c = None
            for l in ls:
                if l == "default":
                    continue
                cc = V.eq(v, self.rv(l)) if True else None
                allc.append(cc)
                c = cc if c is None else V.b_or(c, cc)
            conds[i] = c
        anyc = FALSE
        for c in allc:
            anyc = V.b_or(anyc, c)
        hasdef = any("default" in ls for ls, x in items)
        cur = s0.copy()
        cur.pc = FALSE
        for i, (ls, x) in enumerate(items):
            if ls:
                c = conds[i]
                if "default" in ls:
                    c = V.b_not(anyc) if c is None else V.b_or(c, V.b_not(anyc))
                ent = s0.copy()
                ent.pc = V.b_and(pc0, c)
                cur = self.merge(cur, ent) if cur.pc is not FALSE else ent
            self.st = cur
            self.exec(x)
            cur = self.st
        outs = fr.brk.pop()
        if cur.pc is not FALSE:
            outs.append(cur)
        if not hasdef:
            o = s0.copy()
            o.pc = V.b_and(pc0, V.b_not(anyc))
            outs.append(o)
        r = None
        for o in outs:
            if o.pc is FALSE:
                continue
            r = o if r is None else self.merge(o, r)
        if r is None:
            self.st.pc = FALSE
        else:
            self.st = r

    def s_try(self, s):
        if self.precise_try:
            return self.try_precise(s)
        h0 = len(self.throws)
        self.exec(s["b"])
        # handlers: entered from an unknown state; only their exits matter
        if self.hooks.get("no_handlers"):
            return
        for h in s.get("h", []):
            sv = self.st
            n = self.st.copy()
            if n.pc is FALSE:
                n.pc = TRUE
            self.fresh_n += 1
            exc = V.bopaque("exception", s.get("l") or 0, self.fresh_n)
            n.pc = V.b_and(n.pc, exc)
            self.st = n
            self.exec(h["b"])
            hs = self.st
            if sv.pc is not FALSE:
                sv.pc = V.b_and(sv.pc, V.b_not(exc))
            self.st = self.merge(sv, hs) if hs.pc is not FALSE and sv.pc is not FALSE else (sv if hs.pc is FALSE else hs)

    def try_precise(self, s):
        """handlers are entered from the states at the recorded throws they catch"""
        self.tries.append(Tries())
        self.tries[-1].frames, self.tries[-1].guards = len(self.frames), len(self.frames[-1].guards)
        nf, nl = len(self.frames), len(self.loops)
        try:
            self.exec(s["b"])
        finally:
            mine = self.tries.pop()
        done = set()
        after = self.st
        for h in s.get("h", []):
            t = strip_ty(h.get("ty") or "")
            got = [x for x in mine if x[2] not in done and (not t or t == "..." or x[1] is None or t == x[1] or self.p.is_a(x[1], t) or
                                                             (t == "std::exception" and not x[1].startswith("const char")))]
            if not got:
                continue
            st = None
            for x, ty, i in got:
                done.add(i)
                st = x.copy() if st is None else self.merge(x, st)
            self.st = st
            if h.get("var"):
                self.declare({k: v for k, v in h["var"].items() if k not in ("init", "ref")})
            self.exec(h["b"])
            after = self.merge(self.st, after if after.pc is not FALSE else None) if self.st.pc is not FALSE else after
        for i in done:
            self.throws[i] = None
        if any(x is None for x in self.throws):
            # indices kept by enclosing tries stay valid: entries are only blanked
            pass
        for x in mine:
            if x[2] not in done and self.tries:
                self.tries[-1].append(x)
        self.st = after

    def escaped(self):
        return [x for x in self.throws if x is not None]

    # ---------------------------------------------------------------- loops
    def view_parts(self, e):
        """views::enumerate(x) / views::zip(x, y): list of (None for the index | range expression)"""
        e = strip_cast(e)
        if e.get("k") != "call" or "std::ranges::views::" not in e.get("n", ""):
            return None
        if "_Enumerate" in e["n"] and len(e["args"]) == 1:
            return [None, e["args"][0]]
        if "_Zip" in e["n"] and e["args"]:
            return list(e["args"])
        return None

    def vec_lv(self, e, c):
        """location of the container when its elements are known one by one"""
        if c.k != "vec":
            return None
        e = strip_cast(e)
        if e.get("k") not in ("ref", "mem", "idx") and not (e.get("k") == "un" and e["op"] == "*"):
            return None
        try:
            l = self.lv(e)
        except Unknown:
            return None
        return None if l.a[0] == "t" else l

    def s_rfor(self, s):
        if s.get("init"):
            self.exec(s["init"])
        v = s["v"]
        fr = self.frames[-1]
        parts = self.view_parts(s["range"]) if v.get("bind") else None
        if parts is not None and len(parts) == len(v["bind"]):
            cs = [None if x is None else self.objof(x) for x in parts]
            n = {len(c.a) for c in cs if c is not None and c.k == "vec"}
            if all(c is None or c.k == "vec" for c in cs) and len(n) == 1 and n.pop() <= self.maxloop:
                lvs = [None if x is None else self.vec_lv(x, c) for x, c in zip(parts, cs)]
                first = [c for c in cs if c is not None][0]

                def vbody(i, x):
                    for b, c, l in zip(v["bind"], cs, lvs):
                        if l is not None:
                            fr.env[b["id"]] = mk("loc", "ve", l, i)
                            continue
                        bl = mk("loc", "l", fr.id, b["id"])
                        fr.env[b["id"]] = bl
                        self.st.s[bl] = num(i) if c is None else c.a[i]
                    self.exec(s["b"])
                self.unroll(first, vbody)
                return
            if all(c is None or c.k == "obj" for c in cs):
                idx = nat(("i", len(self.loops)))
                first = [c for c in cs if c is not None][0]
                lp = Loop(mk("dom", num(0), self.size_of(first)), idx, first)

                def obody():
                    for b, c in zip(v["bind"], cs):
                        if c is not None:
                            fr.env[b["id"]] = mk("loc", "e", c, idx)
                            continue
                        bl = mk("loc", "l", fr.id, b["id"])
                        fr.env[b["id"]] = bl
                        self.st.s[bl] = idx
                    self.exec(s["b"])
                self.loop(lp, obody)
                return
        c = self.objof(s["range"])
        if c.k in ("map", "set"):
            ml, _ = self.place(s["range"])
            es = mk("vec", *self.entries(c))

            def mbody(i, x):
                if v.get("bind") and c.k == "map":
                    for j, b in enumerate(v["bind"]):
                        if j == 1 and ml is not None and v.get("ref"):
                            fr.env[b["id"]] = mk("loc", "me", ml, x.a[0])
                            continue
                        bl = mk("loc", "l", fr.id, b["id"])
                        fr.env[b["id"]] = bl
                        self.st.s[bl] = x.a[j]
                else:
                    l = mk("loc", "l", fr.id, v["id"])
                    fr.env[v["id"]] = l
                    self.locty[l] = v["ty"]
                    self.st.s[l] = x
                self.exec(s["b"])
            self.unroll(es, mbody)
            return
        if c.k == "ite":
            ls = self.leaves(c)
            if not all(x.k == "obj" for x in ls) or len(ls) > 1:
                c = obj("coll", c.id)

        def body(loc, val):
            if v.get("bind"):
                for i, b in enumerate(v["bind"]):
                    bl = mk("loc", "l", fr.id, b["id"])
                    fr.env[b["id"]] = bl
                    self.st.s[bl] = val.a[i] if val.k == "vec" and i < len(val.a) else obj("bind", val.id, i)
            elif v.get("ref") and loc is not None:
                fr.env[v["id"]] = loc
            else:
                l = mk("loc", "l", fr.id, v["id"])
                fr.env[v["id"]] = l
                self.locty[l] = v["ty"]
                self.st.s[l] = val if v.get("ref") else self.by_value(val, v["ty"])
            self.exec(s["b"])
        self.iterate(c, v["ty"], body, self.vec_lv(s["range"], c) if v.get("ref") else None)

    def unroll(self, c, body):
        fr = self.frames[-1]
        fr.brk.append([])
        for i, x in enumerate(c.a):
            fr.cnt.append([])
            body(i, x)
            for o in fr.cnt.pop():
                self.st = self.merge(o, self.st if self.st.pc is not FALSE else None)
            if self.st.pc is FALSE:
                break
        for o in fr.brk.pop():
            self.st = self.merge(o, self.st if self.st.pc is not FALSE else None)

    def iterate(self, c, ety, body, lv=None):
        fr = self.frames[-1]
        if c.k == "vec" and len(c.a) <= self.maxloop:
            self.unroll(c, lambda i, x: body(mk("loc", "ve", lv, i) if lv is not None else None, x))
            return
        if c.k == "vec":
            c = obj("veclit", c.id)
        idx = nat(("i", len(self.loops)))
        dom = mk("dom", num(0), self.size_of(c))
        lp = Loop(dom, idx, c)

        def b2():
            loc = mk("loc", "e", c, idx)
            self.locty.setdefault(loc, ety)
            body(loc, self.load(loc, ety))
        self.loop(lp, b2)

    def for_pattern(self, s):
        """(varid, start, end) of a counting loop with step one"""
        i = s.get("i")
        if not i or i.get("k") not in ("decl", "expr"):
            return None
        if i["k"] == "decl":
            if not i["vars"] or not i["vars"][0].get("init"):
                return None
            vid = i["vars"][0]["id"]
        else:
            return None
        inc = s.get("inc")
        if not inc:
            return None
        inc = strip_cast(inc)
        ok = inc.get("k") == "un" and inc["op"] in ("++", "p++") and strip_cast(inc["e"]).get("id") == vid
        if not ok and inc.get("k") == "asg" and inc["op"] == "+=" and strip_cast(inc["a"]).get("id") == vid:
            b = strip_cast(inc["b"])
            ok = b.get("k") == "int" and b["v"] == 1
        if not ok:
            return None
        c = strip_cast(s["c"]) if s.get("c") else None
        if not c or c.get("k") != "bin":
            return None
        a, b = strip_cast(c["a"]), strip_cast(c["b"])
        op = c["op"]
        if a.get("id") == vid and op in ("<", "!=", "<="):
            end = b
        elif b.get("id") == vid and op in (">", "!=", ">="):
            end = a
            op = {">": "<", ">=": "<=", "!=": "!="}[op]
        else:
            return None
        # the counter must not be assigned in the body
        for x in walk(s["b"]):
            if x.get("k") == "asg" and strip_cast(x["a"]).get("id") == vid:
                return None
            if x.get("k") == "un" and x["op"] in ("++", "--", "p++", "p--") and strip_cast(x["e"]).get("id") == vid:
                return None
        return vid, i, end, op

    def s_for(self, s):
        fr = self.frames[-1]
        pt = self.for_pattern(s)
        if pt is None:
            if s.get("i"):
                self.exec(s["i"])
            return self.generic_loop(s.get("c"), s["b"], s.get("inc"))
        vid, init, end, op = pt
        self.exec(init)
        l = mk("loc", "l", fr.id, vid)
        start = self.st.s.get(l, num(0))
        fin = self.rv(end)
        if op == "<=":
            fin = V.add(fin, num(1))
        if start.k == "num" and fin.k == "num" and V.p_isconst(start.a[0]) and V.p_isconst(fin.a[0]):
            a, b = V.p_constval(start.a[0]), V.p_constval(fin.a[0])
            if b - a <= self.maxloop:
                fr.brk.append([])
                i = a
                while i < b:
                    self.st.s[l] = num(i)
                    fr.cnt.append([])
                    self.exec(s["b"])
                    for o in fr.cnt.pop():
                        self.st = self.merge(o, self.st if self.st.pc is not FALSE else None)
                    if self.st.pc is FALSE:
                        break
                    i += 1
                for o in fr.brk.pop():
                    self.st = self.merge(o, self.st if self.st.pc is not FALSE else None)
                return
        idx = nat(("i", len(self.loops)))
        lp = Loop(mk("dom", start, fin), idx)

        def body():
            self.st.s[l] = idx
            self.exec(s["b"])
        self.loop(lp, body)

    def s_while(self, s):
        if s.get("var"):
            self.declare(s["var"])
        # while (i < n) { ...; ++i; } with a local counter is a counting loop
        r = self.while_as_for(s)
        if r is not None:
            return self.s_for(r)
        self.generic_loop(s["c"], s["b"], None)

    def while_as_for(self, s):
        c = strip_cast(s["c"])
        if c.get("k") != "bin" or c["op"] not in ("<", "!="):
            return None
        a = strip_cast(c["a"])
        if a.get("k") != "ref" or a.get("dk") != "local":
            return None
        b = s["b"]
        if not b or b.get("k") != "block" or not b["s"]:
            return None
        last = b["s"][-1]
        if last.get("k") != "expr":
            return None
        inc = strip_cast(last["e"])
        if not (inc.get("k") == "un" and inc["op"] in ("++", "p++") and strip_cast(inc["e"]).get("id") == a["id"]):
            return None
        for x in walk({"k": "block", "s": b["s"][:-1]}):
            if x.get("k") in ("continue",):
                return None
        fr = self.frames[-1]
        l = self.lookup(a["id"])
        if l is None or l not in self.st.s:
            return None
        cur = self.st.s[l]
        if cur.k != "num":
            return None
        ini = {"k": "decl", "vars": [{"id": a["id"], "n": a["n"], "ty": a.get("ty", "int"), "init": {"k": "__val", "v": cur}}]}
        return {"k": "for", "i": ini, "c": s["c"], "inc": inc, "b": {"k": "block", "s": b["s"][:-1]}, "l": s.get("l")}

    def e___val(self, e):
        return e["v"]

    def s_do(self, s):
        self.generic_loop(s["c"], s["b"], None, True)

    def unroll_known(self, c, body, inc, first):
        """a loop whose conditions are all known is followed iteration by iteration"""
        if c is None:
            return False
        fr = self.frames[-1]
        s0 = self.st.copy()
        marks = (len(self.events), len(self.throws), len(fr.rets), len(self.notes), dict(fr.env))
        fr.brk.append([])
        ok = False
        try:
            for k in range(max(40, self.maxloop)):
                if not (first and k == 0):
                    cc = self.cond(c)
                    if cc is FALSE:
                        ok = True
                        break
                    if cc is not TRUE:
                        break
                fr.cnt.append([])
                self.exec(body)
                for o in fr.cnt.pop():
                    self.st = self.merge(o, self.st if self.st.pc is not FALSE else None)
                if self.st.pc is FALSE:
                    ok = True
                    break
                if inc is not None:
                    self.rv(inc)
        except V.Budget:
            raise
        except Unknown:
            ok = False
        outs = fr.brk.pop()
        if not ok:
            del self.events[marks[0]:], self.throws[marks[1]:], fr.rets[marks[2]:], self.notes[marks[3]:]
            fr.env = marks[4]
            self.st = s0
            return False
        for o in outs:
            self.st = self.merge(o, self.st if self.st.pc is not FALSE else None)
        return True

    def generic_loop(self, c, body, inc, first=False):
        """Nothing is known about the number of iterations."""
        if not self.loops and self.unroll_known(c, body, inc, first):
            return
        idx = nat(("i", len(self.loops)))
        self.fresh_n += 1
        lp = Loop(mk("dom", num(0), nat(self.fresh("iterations"))), idx)
        lp.generic = True

        def b2():
            if c is not None:
                cc = self.cond(c)
                br = self.st.copy()
                br.pc = V.b_and(self.st.pc, V.b_not(cc))
                self.st.pc = V.b_and(self.st.pc, cc)
                if self.st.pc is FALSE:
                    return
            self.exec(body)
            if inc is not None and self.st.pc is not FALSE:
                self.rv(inc)
        self.loop(lp, b2, generic=True)

    def loop(self, lp, body, generic=False):
        fr = self.frames[-1]
        base = self.st
        pc0 = base.pc
        lp.pre = base
        # pass 1: which locations change
        rec, self.record = self.record, False
        nthrow = len(self.throws)
        saved_rets = list(fr.rets)
        envs = dict(fr.env)
        self.loops.append(lp)
        changed = set()
        vers = set()
        start = base.copy()
        hook_a = self.hooks.get("assign")
        if hook_a:
            self.hooks = dict(self.hooks)
            self.hooks.pop("assign")
        try:
            for it in range(2):
                self.st = start.copy()
                for l in changed:
                    if l in start.s or l.a[0] != "l":
                        self.st.s[l] = self.phi(l, start)
                for q in vers:
                    self.st.ver[q] = "loop%d:%s" % (len(self.loops), q)
                    for l in list(self.st.s):
                        if l.a[0] == "f" and l.a[2] == q:
                            del self.st.s[l]
                s1 = self.st.copy()
                outs, brks = self.run_body(body)
                new = set()
                for o in outs + brks:
                    for l in o.s:
                        if o.s.get(l) is not s1.s.get(l) and (l.a[0] != "l" or l in start.s):
                            new.add(l)
                    for q in o.ver:
                        if o.ver[q] != s1.ver.get(q):
                            vers.add(q)
                new -= {l for l in new if l.a[0] == "t"}
                if new <= changed and it:
                    break
                changed |= new
        finally:
            self.record = rec
            del self.throws[nthrow:]
            fr.rets = saved_rets
            if hook_a:
                self.hooks["assign"] = hook_a
        # pass 2: with loop-carried unknowns
        self.st = start.copy()
        ix = self.index_atom(lp)
        phis = {}
        for l in changed:
            if l in start.s or l.a[0] != "l":
                if l.a[0] == "e" and self.depends(l, ix):
                    continue        # per element
                ph = self.phi(l, start)
                self.st.s[l] = ph
                phis[l] = ph
        for q in vers:
            self.st.ver[q] = "loop%d:%s" % (len(self.loops), q)
        nret = len(fr.rets)
        outs, brks = self.run_body(body)
        self.loops.pop()
        fr.env = dict(fr.env, **{k: v for k, v in envs.items()})
        end = None
        for o in outs:
            if o.pc is not FALSE:
                end = o if end is None else self.merge(o, end)
        # returns inside the body happen in some iteration
        inret = FALSE
        for i in range(nret, len(fr.rets)):
            s, v = fr.rets[i]
            ex = self.exists(lp, s.pc, pc0)
            s.pc = V.b_and(pc0, ex)
            inret = V.b_or(inret, ex)
        res = start.copy()
        res.pc = V.b_and(pc0, V.b_not(inret))
        for q in vers:
            self.fresh_n += 1
            res.ver[q] = "v%d" % self.fresh_n
            for l in list(res.s):
                if l.a[0] == "f" and l.a[2] == q and l not in changed:
                    del res.s[l]
        full = not brks and len(fr.rets) == nret and not generic
        phi_atoms = set()
        for ph in phis.values():
            phi_atoms |= V.support(ph)
            if ph.k == "ite":
                phi_atoms.add(ph.a[0])
        for l in changed:
            old = start.s.get(l)
            if old is None:
                self.st = start
                old = self.initial(l, self.locty.get(l, "obj"))
            new = end.s.get(l) if end is not None else None
            if new is None:
                res.s[l] = self.typed(self.fresh("loop"), self.locty.get(l, "obj"))
                continue
            if l in phis:
                r = self.reduce(lp, phis[l], old, new, phis, full)
                res.s[l] = r if r is not None else self.typed(self.fresh("loop"), self.locty.get(l, "obj"))
            else:
                # element-wise update
                dep_phi = bool(V.support(new) & phi_atoms)
                if full and not dep_phi and self.covers(lp, l):
                    res.s[l] = new
                else:
                    res.s[l] = self.typed(self.fresh("loop"), self.locty.get(l, "obj"))
        self.st = res

    def covers(self, lp, l):
        """the loop visits every element of the collection of location l"""
        coll = None
        x = l
        while x is not None and x.k == "loc":
            if x.a[0] == "e" and x.a[2] is lp.idx:
                coll = x.a[1]
                break
            if x.a[0] == "f":
                o = x.a[1]
            elif x.a[0] == "e":
                o = x.a[1]
            elif x.a[0] == "d":
                o = x.a[1]
            else:
                break
            x = o.a[1] if o.k == "obj" and o.a[0] in ("sub", "ld") and isinstance(o.a[1], V.V) else None
        if coll is None:
            return False
        if lp.coll is coll:
            return True
        d = lp.dom
        return d.a[0] is num(0) and d.a[1] is self.size_of(coll)

    def index_atom(self, lp):
        return list(V.support(lp.idx))[0]

    def depends(self, l, atom_):
        return atom_ in V.support(mk("w", l))

    def phi(self, l, start):
        ty = self.locty.get(l, None)
        v = start.s.get(l)
        k = self.kind(ty) if ty else None
        if v is not None and v.k == "num" or k == "num":
            return nat(("phi", l.id, len(self.loops)))
        if k == "bool" or (v is not None and v.k == "bool"):
            return V.bopaque("phi", l.id, len(self.loops))
        if v is not None and v.k == "ite" and all(x.k == "num" for x in self.leaves(v)):
            return nat(("phi", l.id, len(self.loops)))
        return obj("phi", l, len(self.loops))

    def run_body(self, body):
        fr = self.frames[-1]
        fr.brk.append([])
        fr.cnt.append([])
        body()
        outs = fr.cnt.pop()
        brks = fr.brk.pop()
        if self.st.pc is not FALSE:
            outs.append(self.st)
        return outs, brks

    def exists(self, lp, pc, pc0):
        ix = self.index_atom(lp)
        return V.bopaque("exists", lp.dom.id, pc.id)

    def reduce(self, lp, ph, old, new, phis, full):
        if new is ph:
            return old
        allphi = set()
        for p in phis.values():
            if p.k == "num":
                allphi |= V.support(p)
        if not full:
            return None
        if ph.k == "num" and all(x.k == "num" for x in self.leaves(new)):
            try:
                f = V.sub(new, ph)
            except Unknown:
                return None
            if V.support(f) & allphi or self.has_obj_phi(f, phis):
                # last value independent of the carried value?
                return None
            try:
                return V.add(old, self.summation(lp, f))
            except Unknown:
                return None
        if ph.k == "ite" and ph.a[0] is not None:       # boolean accumulators
            if new.k in ("bool",):
                return ite(V.bopaque("nonempty", lp.dom.id), new, old)
            # x = x && c   /  x = x || c
            try:
                t = ite(ph, TRUE, FALSE)
                hi = V.restrict(new, ph.a[0], True)
                lo = V.restrict(new, ph.a[0], False)
                if lo is FALSE:
                    return V.b_and(old, V.b_not(V.bopaque("exists", lp.dom.id, V.b_not(hi).id)))
                if hi is TRUE:
                    return V.b_or(old, V.bopaque("exists", lp.dom.id, lo.id))
            except Unknown:
                pass
        return None

    def has_obj_phi(self, f, phis):
        ids = {p.id for p in phis.values() if p.k != "num"}
        return False

    def summation(self, lp, f):
        """sum of f over the iteration domain, linear parts split"""
        ix = self.index_atom(lp)

        def leaf(x):
            x = V.tonum(x)
            out = num(0)
            for m, c in x.a[0]:
                dep, ind = [], []
                for a, e in m:
                    s = {a}
                    d = V.atom_desc(a)
                    sup = V.support(V.numP(V.p_atom(a)))
                    (dep if ix in sup else ind).append((a, e))
                indp = V.numP(((tuple(ind), c),))
                if dep:
                    t = nat(("sum", lp.dom.id, V.numP(((tuple(dep), V.Fraction(1)),)).id))
                else:
                    t = V.sub(lp.dom.a[1], lp.dom.a[0])
                out = V.add(out, V.mul(indp, t))
            return out
        # conditions that depend on the index stay inside the sum
        if self.cond_depends(f, ix):
            return nat(("sum", lp.dom.id, f.id))
        return apply(leaf, f)

    def cond_depends(self, f, ix):
        seen = set()
        todo = [f]
        while todo:
            x = todo.pop()
            if x.id in seen or x.k != "ite":
                continue
            seen.add(x.id)
            if ix in V.support(mk("ite", x.a[0], TRUE, FALSE)):
                return True
            todo += [x.a[1], x.a[2]]
        return False


def tonum0(x):
    try:
        return apply(V.tonum, x)
    except Unknown:
        return nat(("ix", x.id))
