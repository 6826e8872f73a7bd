"""Eigen arrays whose extent is known: one-dimensional arrays are vectors of numbers,
two-dimensional ones vectors of rows."""
from . import vals as V
from .vals import Unknown, mk, num, VOID
from .ir import strip_ty, strip_cast


def small(v, limit=400):
    if v.k == "num" and V.p_isconst(v.a[0]):
        c = V.p_constval(v.a[0])
        if c == int(c) and 0 <= c <= limit:
            return int(c)
    return None


class Arrays:
    named_finite = False      # values given names by a scene are ordinary numbers

    def array_map(self, f, x, y):
        if x.k == "vec" and y.k == "vec":
            if len(x.a) != len(y.a):
                return None
            rs = [self.array_map(f, p, q) for p, q in zip(x.a, y.a)]
        elif x.k == "vec":
            rs = [self.array_map(f, p, y) for p in x.a]
        elif y.k == "vec":
            rs = [self.array_map(f, x, q) for q in y.a]
        else:
            return f(x, y)
        return None if any(r is None for r in rs) else mk("vec", *rs)

    def array_flat(self, x):
        if x.k == "vec":
            return [q for p in x.a for q in self.array_flat(p)]
        return [x]

    def array_rows(self, t):
        """two-dimensional by its type"""
        t = strip_ty(t or "")
        i = t.find("Array<double")
        return i >= 0 and t[i:].split(",")[1:3] and t[i:].split(",")[1].strip() == "-1" and t[i:].split(",")[2].strip().startswith("-1")

    def uninit(self, rows, cols=None):
        if cols is None:
            return mk("vec", *[V.nat(("uninit", self.fresh("u")[1], i)) for i in range(rows)])
        return mk("vec", *[self.uninit(cols) for _ in range(rows)])

    def array_ctor(self, e, t, args):
        A = e.get("args", [])
        if t.startswith("Eigen::Map"):
            src = strip_cast(A[0])
            if src.get("k") == "call" and src.get("recv") is not None and src["n"].rsplit("::", 1)[-1] == "data":
                c = self.objof(src["recv"])
                if c.k == "vec" and len(args) >= 2 and small(args[1]) == len(c.a):
                    return c
            return None
        if not t.startswith(("Eigen::Array<", "Eigen::Matrix<")) or "PrivateType" in t:
            return None
        vs = [a for a in args if not (a.k == "obj" and a.a[0] == "ctor" and "PrivateType" in str(a.a[1]))]
        if not vs:
            return mk("vec")
        if len(vs) == 1:
            if vs[0].k == "vec":
                return vs[0]
            n = small(vs[0])
            if n is not None and self.kind(A[0].get("ty", "int")) == "num":
                return self.uninit(n)
        if len(vs) == 2 and all(small(v) is not None for v in vs):
            return self.uninit(*[small(v) for v in vs])
        return None

    def matrix_index(self, v, n):
        """position along an axis of n entries; 'all' for the whole axis"""
        if v.k == "enum":
            if v.a[0].endswith("::all"):
                return "all"
            if v.a[0].endswith("::last") or v.a[0].endswith("::lastp1"):
                return n - 1
        i = small(v)
        return i if i is not None and i < n else None

    def matrix_slot(self, e):
        R = e["recv"]
        base = self.objof(R)
        if base.k != "vec" or not base.a or not all(r.k == "vec" for r in base.a):
            return None
        i = self.matrix_index(self.rv(e["args"][0]), len(base.a))
        j = self.matrix_index(self.rv(e["args"][1]), len(base.a[0].a))
        if i in (None, "all") or j in (None, "all"):
            return None
        try:
            l = self.lv(R)
        except Unknown:
            return None
        return None if l.a[0] == "t" else mk("loc", "ve", mk("loc", "ve", l, i), j)

    def array_call(self, e, short, op, R, A):
        if short in ("resize", "conservativeResize"):
            ns = [small(self.rv(a)) for a in A]
            if any(n is None for n in ns) or not ns:
                return None
            old = self.objof(R)
            if len(ns) == 1:
                new = self.uninit(ns[0])
                keep = list(old.a[:ns[0]]) if old.k == "vec" and (short != "resize" or len(old.a) == ns[0]) else []
                new = mk("vec", *(keep + list(new.a[len(keep):])))
            else:
                if short != "resize":
                    return None
                same = old.k == "vec" and len(old.a) == ns[0] and all(r.k == "vec" and len(r.a) == ns[1] for r in old.a)
                new = old if same else self.uninit(*ns)
            self.store(self.lv(R), new)
            return VOID
        if short == "data" and not A:
            x = self.objof(R)
            if x.k == "vec" and not any(r.k == "vec" for r in x.a):
                return V.obj("arrptr", x, num(0))
            if x.k == "vec" and x.a and all(r.k == "vec" and len(r.a) == len(x.a[0].a) and not any(y.k == "vec" for y in r.a) for r in x.a) and (e.get("ty") or "").startswith("const"):
                return V.obj("arrptr", mk("vec", *[r.a[j] for j in range(len(x.a[0].a)) for r in x.a]), num(0))      # stored by columns
            return None
        if short in ("cols", "rows", "size", "transpose", "replicate", "unaryExpr", "tail", "head", "segment", "row", "col", "value", "mean") or op == "()" and len(A) == 2:
            x = self.objof(R)
            if x.k != "vec":
                return None
            two = bool(x.a) and all(r.k == "vec" for r in x.a)
            if short == "cols":
                return num(len(x.a[0].a)) if two else num(1) if x.a else None
            if short == "rows":
                return num(len(x.a))
            if short == "size":
                return num(len(self.array_flat(x)))
            if short == "transpose":
                if two:
                    return mk("vec", *[mk("vec", *[r.a[j] for r in x.a]) for j in range(len(x.a[0].a))])
                return mk("vec", x)
            if short == "replicate":
                ns = [small(self.rv(a)) for a in A]
                if len(ns) != 2 or None in ns or not two:
                    return None
                return mk("vec", *[mk("vec", *(list(r.a) * ns[1])) for r in x.a] * ns[0])
            if short == "unaryExpr":
                f = A[0]
                while f.get("k") in ("un", "cast", "copy"):
                    f = f["e"]
                fn = self.rv(f)
                g = self.p.fn.get(fn.a[0]) if fn.k == "fref" else None

                def one(p, _):
                    if fn.k == "lam":
                        return self.call_lambda(fn, [p])
                    return self.inline(g, None, [p])
                if g is None and fn.k != "lam":
                    return None
                return self.array_map(one, x, num(0))
            if short in ("tail", "head", "segment"):
                ns = [small(self.rv(a)) for a in A]
                if None in ns or two or any(n > len(x.a) for n in ns):
                    return None
                if short == "segment":
                    return mk("vec", *x.a[ns[0]:ns[0] + ns[1]])
                return mk("vec", *(x.a[len(x.a) - ns[0]:] if short == "tail" else x.a[:ns[0]]))
            if short in ("row", "col"):
                i = small(self.rv(A[0]))
                if i is None or not two:
                    return None
                return x.a[i] if short == "row" else mk("vec", *[r.a[i] for r in x.a])
            if op == "()" and two:
                i = self.matrix_index(self.rv(A[0]), len(x.a))
                j = self.matrix_index(self.rv(A[1]), len(x.a[0].a))
                if i is None or j is None:
                    return None
                if i == "all":
                    return mk("vec", *[r.a[j] for r in x.a]) if j != "all" else x
                return x.a[i] if j == "all" else x.a[i].a[j]
        return None
