"""Value domain of the gated value numbering.

A value is a decision diagram over canonical branch conditions whose leaves are
canonical: Laurent polynomials over atoms for numbers, booleans, object terms,
strings, vectors of values.  Two expressions that compute the same function of
their atoms get the same canonical value for polynomials; rational functions are
compared by clearing denominators.  Branch conditions on numbers are reduced to
the sign of a canonical polynomial.  A path of a comparison is discarded when the
linear constraints on it are contradictory (Fourier-Motzkin elimination, i.e. an
emptiness test in the polyhedral domain)."""
import time
from fractions import Fraction
import itertools


class Unknown(Exception):
    """The construct is outside the domain: nothing is concluded."""


class Budget(Unknown):
    """The values grew beyond the bound: the whole evaluation is given up."""


BUDGET = 120000
DEADLINE = [time.time() + 550]

# ---------------------------------------------------------------- interning
_tab = {}
_rev = {}
_atoms = []          # id -> description tuple
_atom_id = {}


def atom(desc):
    i = _atom_id.get(desc)
    if i is None:
        i = len(_atoms)
        _atoms.append(desc)
        _atom_id[desc] = i
    return i


def atom_desc(i):
    return _atoms[i]


class V:
    __slots__ = ("k", "a", "id", "__weakref__")
    n = 0

    def __repr__(self):
        return show(self)


def mk(k, *a):
    key = (k,) + tuple(x.id if isinstance(x, V) else x for x in a)
    v = _tab.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        v.id = ("v", V.n)
        V.n += 1
        _tab[key] = v
        _rev[v.id] = v
    return v


# ---------------------------------------------------------------- polynomials
# poly: tuple of sorted ((monomial, coef)), monomial: tuple of sorted ((atom, exp))
def p_const(c):
    c = Fraction(c)
    return ((() , c),) if c else ()


def p_atom(i):
    return ((((i, 1),), Fraction(1)),)


def _pack(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c), key=lambda t: t[0]))


def p_add(a, b):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + c
    return _pack(d)


def p_scale(a, s):
    return tuple((m, c * s) for m, c in a) if s else ()


def _mm(m, n):
    d = dict(m)
    for x, e in n:
        d[x] = d.get(x, 0) + e
    return tuple(sorted((x, e) for x, e in d.items() if e))


def p_mul(a, b):
    if len(a) * len(b) > 3000:
        raise Unknown("polynomial too large")
    d = {}
    for m, c in a:
        for n, e in b:
            k = _mm(m, n)
            d[k] = d.get(k, 0) + c * e
    return _cancel(_pack(d))


def _inv_poly(i):
    ds = _atoms[i]
    return ds[1] if ds[0] == "inv" else None


def _cancel(p):
    """Cancel p = (sum) * inv(q) when the coefficient polynomial of inv(q) is a multiple of q."""
    for _ in range(8):
        invs = {x for m, c in p for x, e in m if _atoms[x][0] == "inv" and e > 0}
        done = True
        for x in invs:
            q = _inv_poly(x)
            for deg in sorted({e for m, c in p for y, e in m if y == x}, reverse=True):
                part = {}
                rest = {}
                for m, c in p:
                    if (x, deg) in m:
                        part[tuple(t for t in m if t != (x, deg))] = c
                    else:
                        rest[m] = c
                dv = p_div_exact(_pack(part), q)
                if dv is not None:
                    add = p_mul_raw(dv, (((((x, deg - 1),) if deg > 1 else ()), Fraction(1)),))
                    p = p_add(_pack(rest), add)
                    done = False
                    break
            if not done:
                break
        if done:
            return p
    return p


def p_mul_raw(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            k = _mm(m, n)
            d[k] = d.get(k, 0) + c * e
    return _pack(d)


def p_div_exact(p, q):
    """p / q when it divides exactly (simple multivariate division), else None."""
    if not p:
        return ()
    lm, lc = max(q, key=lambda t: _ordkey(t[0]))
    quo = {}
    r = dict(p)
    n = 0
    while r:
        n += 1
        if n > 60:
            return None
        m = max(r, key=_ordkey)
        c = r[m]
        k = _mm(m, tuple((x, -e) for x, e in lm))
        if any(e < 0 for x, e in k) and not all(any(y == x and f < 0 for y, f in m) for x, e in k if e < 0):
            return None
        quo[k] = quo.get(k, 0) + c / lc
        for qm, qc in q:
            z = _mm(k, qm)
            r[z] = r.get(z, 0) - (c / lc) * qc
            if not r[z]:
                del r[z]
    return _pack(quo)


def _ordkey(m):
    return (sum(e for _, e in m), m)


def p_inv(p):
    if not p:
        raise Unknown("division by zero")
    if len(p) == 1:
        m, c = p[0]
        return ((tuple((x, -e) for x, e in m), 1 / c),)
    lc = p[-1][1]
    # factor out the common monomial
    atoms_ = set(x for m, c in p for x, e in m)
    common = {}
    for x in atoms_:
        e = min(dict(m).get(x, 0) for m, c in p)
        if e:
            common[x] = e
    cm = tuple(sorted(common.items()))
    q = p_mul_raw(p, ((tuple((x, -e) for x, e in cm), 1 / lc),))
    i = atom(("inv", q))
    return p_mul_raw(p_atom(i), ((tuple((x, -e) for x, e in cm), 1 / lc),))


def p_zero(p):
    """Is p identically zero as a rational function (denominators cleared)?"""
    for _ in range(12):
        if not p:
            return True
        invs = {}
        for m, c in p:
            for x, e in m:
                if _atoms[x][0] == "inv":
                    invs[x] = max(invs.get(x, 0), e)
        if not invs:
            return False
        x = max(invs)
        q = _inv_poly(x)
        n = invs[x]
        out = ()
        qp = [p_const(1)]
        for _i in range(n):
            qp.append(p_mul_raw(qp[-1], q))
        for m, c in p:
            e = dict(m).get(x, 0)
            rest = tuple(t for t in m if t[0] != x)
            out = p_add(out, p_mul_raw(((rest, c),), qp[n - e]))
        p = out
        if len(p) > 4000:
            raise Unknown("polynomial too large")
    raise Unknown("denominators do not clear")


def p_isconst(p):
    return not p or (len(p) == 1 and p[0][0] == ())


def p_constval(p):
    return p[0][1] if p else Fraction(0)


# ---------------------------------------------------------------- leaves
def _dec(c):
    """the decimal a float literal was written as (single precision literals included)"""
    import struct
    if struct.unpack("f", struct.pack("f", c))[0] == c if abs(c) < 3e38 else False:
        for p in range(1, 10):
            t = "%.*g" % (p, c)
            if struct.unpack("f", struct.pack("f", float(t)))[0] == c:
                return Fraction(t)
    return Fraction(repr(c))


def num(c):
    if isinstance(c, float):
        if c != c or c in (float("inf"), float("-inf")):
            return mk("num", p_atom(atom(("inf",)))) if c == float("inf") else (
                mk("num", p_scale(p_atom(atom(("inf",))), Fraction(-1))) if c == float("-inf") else mk("num", p_atom(atom(("nan",)))))
        c = _dec(c)
    return mk("num", p_const(c))


def nat(desc):
    return mk("num", p_atom(atom(desc)))


def numP(p):
    return mk("num", p)


TRUE = mk("bool", True)
FALSE = mk("bool", False)


def boolean(b):
    return TRUE if b else FALSE


NONNULL = {"new", "root", "sub", "nn", "param", "forcing"}
NULL = mk("null")
VOID = mk("void")


def obj(*desc):
    return mk("obj", *desc)


def string(s):
    return mk("str", s)


# ---------------------------------------------------------------- decision diagrams
# condition variables: ("gt", poly) poly > 0 ; ("lt", poly) poly < 0 ; ("b", atomdesc)
_vars = []
_var_id = {}


def var(desc):
    i = _var_id.get(desc)
    if i is None:
        i = len(_vars)
        _vars.append(desc)
        _var_id[desc] = i
    return i


def var_desc(i):
    return _vars[i]


def ite_raw(v, hi, lo):
    if hi is lo:
        return hi
    return mk("ite", v, hi, lo)


def _excl(v):
    """The variable excluded by v being true (gt/lt of the same polynomial)."""
    d = _vars[v]
    if d[0] == "gt":
        return _var_id.get(("lt", d[1]))
    if d[0] == "lt":
        return _var_id.get(("gt", d[1]))
    return None


def cof(x, v, val):
    """Cofactor of x for variable v := val (top variable only or ordered below)."""
    if x.k != "ite":
        return x
    w = x.a[0]
    if w == v:
        return x.a[1] if val else x.a[2]
    return x


def restrict(x, v, val, memo=None):
    if x.k == "vec" and any(isinstance(y, V) and y.k in ("ite", "vec") for y in x.a):
        return mk("vec", *[restrict(y, v, val) if isinstance(y, V) else y for y in x.a])
    if x.k != "ite":
        return x
    if memo is None:
        memo = {}
    r = memo.get(x.id)
    if r is not None:
        return r
    w = x.a[0]
    if w == v:
        r = restrict(x.a[1] if val else x.a[2], v, val, memo)
    else:
        ex = _excl(v) if val else None
        if ex is not None and w == ex:
            r = restrict(x.a[2], v, val, memo)
        elif w > v and ex is None:
            r = x if w > v else x
            r = ite_raw(w, restrict(x.a[1], v, val, memo), restrict(x.a[2], v, val, memo))
        else:
            r = ite_raw(w, restrict(x.a[1], v, val, memo), restrict(x.a[2], v, val, memo))
    memo[x.id] = r
    return r


_ops = [0]


def reset_budget():
    _ops[0] = 0


def apply(f, *xs):
    """Applies the leaf function f pointwise."""
    memo = {}

    def go(xs):
        key = tuple(x.id for x in xs)
        r = memo.get(key)
        if r is not None:
            return r
        _ops[0] += 1
        if _ops[0] > BUDGET:
            raise Budget("value graph too large")
        if time.time() > DEADLINE[0]:
            raise Budget("out of time")
        tops = [x.a[0] for x in xs if x.k == "ite"]
        if not tops:
            r = f(*xs)
        else:
            v = min(tops)
            ex = _excl(v)
            his = [cof(x, v, True) for x in xs]
            if ex is not None:
                his = [restrict(x, v, True) for x in his]
            r = mk_ite_var(v, go(his), go([cof(x, v, False) for x in xs]))
        memo[key] = r
        return r
    return go(list(xs))


def mk_ite_var(v, hi, lo):
    """ite with variable v above hi and lo; keeps the order."""
    if hi is lo:
        return hi
    if (hi.k != "ite" or hi.a[0] > v) and (lo.k != "ite" or lo.a[0] > v):
        return mk("ite", v, hi, lo)
    # out of order (a leaf function introduced new variables): rebuild
    cond = mk("ite", v, TRUE, FALSE)
    return ite(cond, hi, lo)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    memo = {}

    def go(c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        key = (c.id, a.id, b.id)
        r = memo.get(key)
        if r is not None:
            return r
        _ops[0] += 1
        if _ops[0] > BUDGET:
            raise Budget("value graph too large")
        if time.time() > DEADLINE[0]:
            raise Budget("out of time")
        tops = [x.a[0] for x in (c, a, b) if x.k == "ite"]
        if not tops:
            raise Unknown("non boolean condition")
        if a.k == "vec" and b.k == "vec" and len(a.a) == len(b.a) and len(a.a):
            r = mk("vec", *[x if x is y else ite(c, x, y) for x, y in zip(a.a, b.a)])
            memo[key] = r
            return r
        v = min(tops)
        hs = [restrict_top(x, v) for x in (c, a, b)]
        r = ite_raw(v, go(*hs), go(*[cof(x, v, False) for x in (c, a, b)]))
        memo[key] = r
        return r
    return go(c, a, b)


def restrict_top(x, v):
    ex = _excl(v)
    x = cof(x, v, True)
    if ex is not None:
        x = restrict(x, v, True)
    return x


# ---------------------------------------------------------------- operations
def _isnum(x):
    return x.k == "num"


def tonum(x):
    if x.k == "num":
        return x
    if x.k == "bool":
        return num(1 if x.a[0] else 0)
    if x.k == "ite":
        return apply(tonum, x)
    if x.k == "obj":
        return nat(("val",) + (x.id,))
    raise Unknown("not a number: %s" % x.k)


def add(a, b):
    return apply(lambda x, y: numP(_cancel(p_add(tonum(x).a[0], tonum(y).a[0]))), a, b)


def neg(a):
    return apply(lambda x: numP(p_scale(tonum(x).a[0], Fraction(-1))), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    return apply(lambda x, y: numP(p_mul(tonum(x).a[0], tonum(y).a[0])), a, b)


def div(a, b):
    def f(x, y):
        x, y = tonum(x), tonum(y)
        if not y.a[0]:
            return nat(("div0", x.id))
        if not x.a[0]:
            return x
        q = p_div_exact(x.a[0], y.a[0]) if len(y.a[0]) > 1 else None
        if q is not None:
            return numP(q)
        return numP(p_mul(x.a[0], p_inv(y.a[0])))
    return apply(f, a, b)


def idiv(a, b):
    def f(x, y):
        x, y = tonum(x), tonum(y)
        if p_isconst(x.a[0]) and p_isconst(y.a[0]) and y.a[0]:
            q = p_constval(x.a[0]) / p_constval(y.a[0])
            n = abs(q).numerator // abs(q).denominator
            return num(n if q >= 0 else -n)
        return nat(("idiv", x.id, y.id))
    return apply(f, a, b)


# atoms known to be positive / non-negative (descriptions); set by clients
_POS = {"inf"}


def sgn_facts(p):
    """constant sign if decidable without context: 1, 0, -1 or None"""
    if not p:
        return 0
    if p_isconst(p):
        c = p_constval(p)
        return 1 if c > 0 else -1
    # infinity dominates finite terms
    infi = _atom_id.get(("inf",))
    if infi is not None:
        s = [c for m, c in p if m == ((infi, 1),)]
        if s and all(m == ((infi, 1),) or not any(x == infi for x, e in m) for m, c in p):
            return 1 if s[0] > 0 else -1
    # products of positive atoms
    if all(all(_is_pos(x) for x, e in m) for m, c in p):
        if all(c > 0 for m, c in p):
            return 1
        if all(c < 0 for m, c in p):
            return -1
    return None


def _is_pos(x):
    d = _atoms[x]
    if d[0] in ("exp", "inf", "pos"):
        return True
    if d[0] == "pow":
        b = _by_id(d[1])
        return b.k == "num" and bool(b.a[0]) and p_isconst(b.a[0]) and p_constval(b.a[0]) > 0
    return False


def canon_sign(p):
    """(canonical polynomial, flipped?)"""
    ats = {x for m, c in p for x, e in m if _is_pos(x) and _atoms[x][0] != "inf"}
    if ats:
        f = {}
        for x in ats:
            e = min(dict(m).get(x, 0) for m, c in p)
            if e:
                f[x] = -e
        if f:
            p = p_mul_raw(p, ((tuple(sorted(f.items())), Fraction(1)),))
    lead = p[-1][1]
    q = p_scale(p, 1 / abs(lead))
    if lead < 0:
        return p_scale(q, Fraction(-1)), True
    return q, False


def gt0(x):
    """x > 0 as a boolean diagram"""
    def f(x):
        p = tonum(x).a[0]
        s = sgn_facts(p)
        if s is not None:
            return boolean(s > 0)
        q, fl = canon_sign(p)
        # make both variables adjacent
        g, l = var(("gt", q)), var(("lt", q))
        if fl:
            return mk_ite_var(g, FALSE, mk_ite_var(l, TRUE, FALSE))
        return mk_ite_var(g, TRUE, FALSE)
    return apply(f, x)


def lt(a, b):
    return gt0(sub(b, a))


def le(a, b):
    return b_not(gt0(sub(a, b)))


def eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if x.k == "num" or y.k == "num":
            if x.k in ("num", "bool", "obj") and y.k in ("num", "bool", "obj"):
                p = p_add(tonum(x).a[0], p_scale(tonum(y).a[0], Fraction(-1)))
                s = sgn_facts(p)
                if s is not None:
                    return boolean(s == 0)
                q, fl = canon_sign(p)
                g, l = var(("gt", q)), var(("lt", q))
                return mk_ite_var(g, FALSE, mk_ite_var(l, FALSE, TRUE))
        if x.k == "bool" and y.k == "bool":
            return FALSE
        if x.k == "str" and y.k == "str":
            return boolean(x.a[0] == y.a[0])
        if x.k == "it" and y.k == "it" and x.a[0] is y.a[0]:
            return boolean(x.a[1] == y.a[1])
        if x.k == "enum" and y.k == "enum":
            return boolean(x.a[0] == y.a[0])
        if (x.k == "null") != (y.k == "null"):
            o = y if x.k == "null" else x
            if o.k == "obj" and o.a[0] in NONNULL or o.k in ("addr", "lam"):
                return FALSE
            return mk_ite_var(var(("b", "isnull", o.id)), TRUE, FALSE)
        if x.k == "addr" and y.k == "addr" and x.a[0].k == "loc" and y.a[0].k == "loc" and x.a[0].a[0] == "t" and y.a[0].a[0] == "t":
            return FALSE
        if x.k == "obj" and y.k == "obj" and x.a[0] in ("new", "root") and y.a[0] in ("new", "root"):
            return FALSE          # distinct allocations
        i, j = sorted((x.id, y.id))
        return mk_ite_var(var(("b", "eq", i, j)), TRUE, FALSE)
    return apply(f, a, b)


def b_not(a):
    return apply(lambda x: boolean(not truthy(x)), a)


def truthy(x):
    if x.k == "bool":
        return x.a[0]
    raise Unknown("truth of %s" % x.k)


def b_and(a, b):
    return ite(a, b, FALSE)


def b_or(a, b):
    return ite(a, TRUE, b)


def tobool(x):
    def f(x):
        if x.k == "bool":
            return x
        if x.k == "num":
            return b_not(eq(x, num(0)))
        if x.k == "null":
            return FALSE
        if x.k in ("addr", "lam"):
            return TRUE
        if x.k == "obj":
            if x.a[0] in NONNULL:
                return TRUE
            if x.a[0] == "bopaque":
                return mk_ite_var(var(("b",) + x.a), TRUE, FALSE)
            return b_not(eq(x, NULL))
        if x.k in ("enum", "str", "vec"):
            raise Unknown("truth of %s" % x.k)
        return mk_ite_var(var(("b", "truth", x.id)), TRUE, FALSE)
    return apply(f, x)


def bopaque(*desc):
    return mk_ite_var(var(("b",) + desc), TRUE, FALSE)


def v_max(a, b):
    return ite(lt(a, b), b, a)


def v_min(a, b):
    return ite(lt(b, a), b, a)


def v_abs(a):
    return ite(lt(a, num(0)), neg(a), a)


NUMERIC = [False]           # functions of known numbers are computed


def fn_atom(name, *args):
    """Opaque mathematical function."""
    def f(*xs):
        xs = [tonum(x) for x in xs]
        ps = [x.a[0] for x in xs]
        if NUMERIC[0] and name in ("exp", "pow", "sqrt") and all(p_isconst(p) for p in ps):
            import math
            try:
                r = getattr(math, name)(*[float(p_constval(p)) for p in ps])
                if math.isfinite(r):
                    return num(Fraction(r))
            except (ValueError, OverflowError):
                pass
        if name == "exp":
            if not ps[0]:
                return num(1)
            if ps[0][-1][1] < 0:
                return div(num(1), fn_atom("exp", neg(xs[0])))
        if name == "pow":
            b, e = ps
            if p_isconst(e):
                ev = p_constval(e)
                if ev.denominator == 1 and -4 <= ev <= 6:
                    r = num(1)
                    for _ in range(abs(int(ev))):
                        r = mul(r, xs[0])
                    return r if ev >= 0 else div(num(1), r)
                if not b and ev > 0:
                    return num(0)
            if p_isconst(b) and p_constval(b) == 1:
                return num(1)
            # pow(pow(x, a), e) = pow(x, a e) for a fractional power
            if len(b) == 1 and b[0][1] == 1 and len(b[0][0]) == 1 and b[0][0][0][1] == 1:
                d = _atoms[b[0][0][0][0]]
                if d[0] == "pow":
                    x0, e0 = _by_id(d[1]), _by_id(d[2])
                    if e0.k == "num" and p_isconst(e0.a[0]) and p_constval(e0.a[0]).denominator % 2 == 0:
                        return fn_atom("pow", x0, mul(e0, xs[1]))
            lead = e[-1][1] if e else 0
            if lead < 0 and all(c < 0 for m, c in e):
                return div(num(1), fn_atom("pow", xs[0], neg(xs[1])))
            c0 = dict(e).get((), Fraction(0))
            n = c0.numerator // c0.denominator
            if 1 <= n <= 6 and len(b) <= 4:
                r = fn_atom("pow", xs[0], sub(xs[1], num(n)))
                for _ in range(n):
                    r = mul(r, xs[0])
                return r
        if name == "sqrt":
            return fn_atom("pow", xs[0], num(Fraction(1, 2)))
        if name in ("floor", "ceil", "trunc", "round") and p_isconst(ps[0]):
            import math
            c = p_constval(ps[0])
            if name == "floor":
                return num(math.floor(c))
            if name == "ceil":
                return num(math.ceil(c))
            if name == "trunc":
                return num(math.trunc(c))
            return num(math.floor(c + Fraction(1, 2)) if c >= 0 else -math.floor(-c + Fraction(1, 2)))
        if name == "tanh" and not ps[0]:
            return num(0)
        return nat((name,) + tuple(x.id for x in xs))
    return apply(f, *args)


# ---------------------------------------------------------------- display
def show_atom(i):
    return show_desc(_atoms[i])


def show_desc(d):
    if d[0] == "inv":
        return "1/(%s)" % show_poly(d[1])
    out = []
    for x in d[1:]:
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "v":
            out.append(show(_by_id(x)))
        else:
            out.append(str(x))
    if d[0] == "name":
        return str(d[1])
    return "%s(%s)" % (d[0], ", ".join(out)) if out else str(d[0])


def _by_id(i):
    return _rev[i]


def show_poly(p):
    if not p:
        return "0"
    s = []
    for m, c in p:
        t = "*".join(show_atom(x) + ("^%d" % e if e != 1 else "") for x, e in m)
        if not t:
            s.append(_fr(c))
        elif c == 1:
            s.append(t)
        elif c == -1:
            s.append("-" + t)
        else:
            s.append(_fr(c) + "*" + t)
    return " + ".join(s).replace("+ -", "- ")


def _fr(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    return repr(f) if Fraction(repr(f)) == c else "%d/%d" % (c.numerator, c.denominator)


def show_var(v, val=True):
    d = _vars[v]
    if d[0] == "gt":
        return "%s %s 0" % (show_poly(d[1]), ">" if val else "<=")
    if d[0] == "lt":
        return "%s %s 0" % (show_poly(d[1]), "<" if val else ">=")
    t = show_desc(("c",) + d[1:])
    return ("" if val else "!") + t


def show(x, depth=6):
    if x.k == "num":
        return show_poly(x.a[0])
    if x.k == "bool":
        return str(x.a[0]).lower()
    if x.k == "ite":
        if depth <= 0:
            return "..."
        return "[%s ? %s : %s]" % (show_var(x.a[0]), show(x.a[1], depth - 1), show(x.a[2], depth - 1))
    if x.k == "str":
        return repr(x.a[0])
    if x.k == "obj":
        return "%s<%s>" % (x.a[0], ", ".join(show(y, 3) if isinstance(y, V) else str(y) for y in x.a[1:]))
    if x.k == "vec":
        return "{%s}" % ", ".join(show(y, 3) for y in x.a)
    return "%s%s" % (x.k, "" if not x.a else "(%s)" % ", ".join(str(y) for y in x.a))


# ---------------------------------------------------------------- support sets
def support(x, deep=True):
    """ids of atoms occurring in the value (through opaque function arguments)."""
    seen, out = set(), set()

    def poly(p):
        for m, c in p:
            for a, e in m:
                at(a)

    def at(a):
        if a in out:
            return
        out.add(a)
        if deep:
            d = _atoms[a]
            if d[0] == "inv":
                poly(d[1])
            for y in d[1:]:
                if isinstance(y, tuple) and len(y) == 2 and y[0] == "v":
                    go(_by_id(y))

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.k == "num":
            poly(x.a[0])
        elif x.k == "ite":
            d = _vars[x.a[0]]
            if d[0] in ("gt", "lt"):
                poly(d[1])
            else:
                for y in d[1:]:
                    if isinstance(y, tuple) and len(y) == 2 and y[0] == "v":
                        go(_by_id(y))
            go(x.a[1])
            go(x.a[2])
        else:
            for y in x.a:
                if isinstance(y, V):
                    go(y)
    go(x)
    return out


# ---------------------------------------------------------------- equality over regions
def _linear(p):
    """dict monomial->coef with () const"""
    return dict(p)


def feasible(cons, limit=400):
    """cons: list of (poly, rel) rel in '>','<','=' ('>=','<=') over monomials as independent
    variables.  False only when contradictory."""
    ineqs = []     # (dict, strict)  meaning sum >=/> 0
    eqs = []
    cons = propagate(clear_signs(cons))
    pos = positive_atoms(cons)
    extra = {m for p, r in cons for m, c in p if len(m) > 1 and all(e % 2 == 0 and False or _known_pos(x, pos) for x, e in m)}
    cons = cons + [(((m, Fraction(1)),), ">") for m in extra]
    for p, rel in cons:
        d = {m: c for m, c in p}
        if rel == "=":
            eqs.append(d)
        elif rel in (">", ">="):
            ineqs.append((d, rel == ">"))
        else:
            ineqs.append(({m: -c for m, c in d.items()}, rel == "<"))
    # eliminate equalities
    while eqs:
        e = eqs.pop()
        e = {m: c for m, c in e.items() if c}
        vs = [m for m in e if m != ()]
        if not vs:
            if e.get((), 0) != 0:
                return False
            continue
        x = vs[0]
        cx = e[x]

        def subst(d):
            if x not in d or not d[x]:
                return d
            k = d[x] / cx
            r = {}
            for m in set(d) | set(e):
                v = d.get(m, 0) - k * e.get(m, 0)
                if v and m != x:
                    r[m] = v
            return r
        eqs = [subst(d) for d in eqs]
        ineqs = [(subst(d), s) for d, s in ineqs]
    while True:
        vs = {}
        for d, s in ineqs:
            for m, c in d.items():
                if m != () and c:
                    vs.setdefault(m, [0, 0])
                    vs[m][0 if c > 0 else 1] += 1
        for d, s in ineqs:
            if not any(m != () and c for m, c in d.items()):
                k = d.get((), 0)
                if k < 0 or (s and k == 0):
                    return False
        if not vs:
            return True
        x = min(vs, key=lambda m: vs[m][0] * vs[m][1])
        pos = [(d, s) for d, s in ineqs if d.get(x, 0) > 0]
        ng = [(d, s) for d, s in ineqs if d.get(x, 0) < 0]
        rest = [(d, s) for d, s in ineqs if not d.get(x, 0)]
        if len(pos) * len(ng) + len(rest) > limit:
            return True
        for dp, sp in pos:
            for dn, sn in ng:
                k1, k2 = -dn[x], dp[x]
                r = {}
                for m in set(dp) | set(dn):
                    v = k1 * dp.get(m, 0) + k2 * dn.get(m, 0)
                    if v and m != x:
                        r[m] = v
                rest.append((r, sp or sn))
        # dedupe
        seen, u = set(), []
        for d, s in rest:
            key = (tuple(sorted(d.items())), s)
            if key not in seen:
                seen.add(key)
                u.append((d, s))
        ineqs = u


def propagate(cons):
    """equalities of the constraints substituted in the other constraints"""
    for _ in range(6):
        for i, (e, r) in enumerate(cons):
            if r != "=" or p_isconst(e):
                continue
            out, changed = [], False
            for j, (p, q) in enumerate(cons):
                if j == i:
                    continue
                try:
                    s = _subst_eq(p, e)
                except Unknown:
                    s = None
                if s is None:
                    s = p
                elif s != p:
                    changed = True
                out.append((s, q))
            if changed:
                cons = clear_signs(out)
                break
        else:
            return cons
    return cons


def positive_atoms(cons):
    """atoms that a constraint states to be positive"""
    out = set()
    for p, rel in cons:
        if rel == ">" and len(p) == 1:
            m, c = p[0]
            if c > 0 and len(m) == 1 and m[0][1] % 2:
                out.add(m[0][0])
        if rel == "<" and len(p) == 1:
            m, c = p[0]
            if c < 0 and len(m) == 1 and m[0][1] % 2:
                out.add(m[0][0])
    return out


def _known_pos(x, pos):
    if x in pos or _is_pos(x):
        return True
    d = _atoms[x]
    if d[0] == "inv":
        q = d[1]
        return all(c > 0 and all(e % 2 == 0 or _known_pos(y, pos) for y, e in m) for m, c in q)
    if d[0] in ("tanh", "sqrt") and len(d) == 2:
        a = _by_id(d[1])
        return a.k == "num" and p_isconst(a.a[0]) and p_constval(a.a[0]) > 0
    return False


def clear_signs(cons):
    """multiplies every constraint by known positive quantities: denominators and common factors go"""
    pos = positive_atoms(cons)
    out = [(p_atom(x), ">") for x in pos]
    for p, rel in cons:
        try:
            for _ in range(6):
                inv = next((x for m, c in p for x, e in m if e > 0 and _atoms[x][0] == "inv" and _known_pos(x, pos)), None)
                if inv is None:
                    break
                p = _times_inv(p, inv)
        except Unknown:
            pass
        if p:
            ats = {x for m, c in p for x, e in m if x in pos or _is_pos(x)}
            f = {}
            for x in ats:
                e = min(dict(m).get(x, 0) for m, c in p)
                if e:
                    f[x] = -e
            if f:
                p = p_mul_raw(p, ((tuple(sorted(f.items())), Fraction(1)),))
        out.append((p, rel))
    return out


def _times_inv(p, x):
    """p * q^n with x = 1/q, n the highest power of x in p"""
    q = _inv_poly(x)
    n = max(dict(m).get(x, 0) for m, c in p)
    qp = [p_const(1)]
    for _i in range(n):
        qp.append(p_mul_raw(qp[-1], q))
    out = ()
    for m, c in p:
        e = dict(m).get(x, 0)
        rest = tuple(t for t in m if t[0] != x)
        out = p_add(out, p_mul_raw(((rest, c),), qp[n - e]))
        if len(out) > 2000:
            raise Unknown("polynomial too large")
    return out


def cons_of(path):
    """path: dict var->bool -> list of (poly, rel)"""
    by = {}
    out = []
    for v, val in path.items():
        d = _vars[v]
        if d[0] in ("gt", "lt"):
            by.setdefault(d[1], {})[d[0]] = val
    for p, s in by.items():
        if s.get("gt"):
            out.append((p, ">"))
        elif s.get("lt"):
            out.append((p, "<"))
        elif "gt" in s and "lt" in s:
            out.append((p, "="))
        elif "gt" in s:
            out.append((p, "<="))
        else:
            out.append((p, ">="))
    return out


def _subst_eq(p, eqp):
    """substitute using eqp = 0 when it is linear in some atom with a constant coefficient"""
    best = None
    for m, c in eqp:
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            if _atoms[x][0] == "inv":
                continue
            if sum(1 for mm, cc in eqp if any(y == x for y, e in mm)) == 1:
                best = (x, c)
                break
    if best is None:
        return None
    x, c = best
    rhs = p_scale(tuple((m, k) for m, k in eqp if m != ((x, 1),)), -1 / c)
    out = ()
    for m, k in p:
        e = dict(m).get(x, 0)
        rest = tuple(t for t in m if t[0] != x)
        # do not look inside opaque function arguments
        t = ((rest, k),)
        if e > 0:
            for _ in range(e):
                t = p_mul_raw(t, rhs)
        elif e < 0:
            iv = p_inv(rhs)
            for _ in range(-e):
                t = p_mul_raw(t, iv)
        out = p_add(out, t)
    return out


def paths(x, limit=4000):
    """all (path dict, leaf)"""
    n = [0]

    def go(x, path):
        if x.k != "ite":
            n[0] += 1
            if n[0] > limit or time.time() > DEADLINE[0]:
                raise Unknown("too many regions")
            yield dict(path), x
            return
        v = x.a[0]
        if v in path:
            yield from go(x.a[1] if path[v] else x.a[2], path)
            return
        ex = _excl(v)
        if ex is not None and path.get(ex):
            path[v] = False
            yield from go(x.a[2], path)
            del path[v]
            return
        for val, nx in ((True, x.a[1]), (False, x.a[2])):
            path[v] = val
            yield from go(nx, path)
        del path[v]
    yield from go(x, {})


_boxed = [None, 0, {}]


def _box(facts):
    """bounds of the single quantities that the facts give: monomial -> (low, high)"""
    if _boxed[0] is facts and _boxed[1] == len(facts):
        return _boxed[2]
    out = {}
    for p, rel in facts:
        ms = [(m, c) for m, c in p if m != ()]
        if len(ms) != 1 or rel == "=":
            continue
        m, c = ms[0]
        k = -sum((c2 for m2, c2 in p if m2 == ()), Fraction(0)) / c
        low, high = out.get(m, (None, None))
        if (rel in (">", ">=")) == (c > 0):
            low = k if low is None else max(low, k)
        else:
            high = k if high is None else min(high, k)
        out[m] = (low, high)
    _boxed[:] = [facts, len(facts), out]
    return out


def _boxed_truth(v, facts):
    """the truth of a comparison that follows from the bounds of its quantities alone, or None"""
    d = _vars[v]
    if d[0] not in ("gt", "lt"):
        return None
    box = _box(facts)
    low = high = Fraction(0)
    for m, c in d[1]:
        if m == ():
            lo = hi = Fraction(1)
        else:
            lo, hi = box.get(m, (None, None))
        if c < 0:
            lo, hi = hi, lo
        low = None if low is None or lo is None else low + c * lo
        high = None if high is None or hi is None else high + c * hi
        if low is None and high is None:
            return None
    if low is not None and low > 0:
        return d[0] == "gt"
    if high is not None and high < 0:
        return d[0] == "lt"
    return None


def _related(cons, facts):
    """the facts that share a quantity with the constraints, directly or through others"""
    have = {a for p, r in cons for m, c in p for a, e in m}
    rest = [({a for m, c in p for a, e in m}, (p, r)) for p, r in facts]
    out = []
    while True:
        keep = [(s, f) for s, f in rest if not (s & have)]
        if len(keep) == len(rest):
            return out
        for s, f in rest:
            if s & have:
                out.append(f)
        for s, f in rest:
            if s & have:
                have = have | s
        rest = keep


def prune(x, facts, limit=3000):
    """x without the branches that the facts exclude (path sensitive)"""
    if x.k != "ite" or not facts:
        return x
    n = [0]
    many = len(facts) > 80

    def go(x, path):
        if x.k != "ite":
            if x.k == "vec" and any(y.k == "ite" for y in x.a if isinstance(y, V)):
                return mk("vec", *[go(y, path) for y in x.a])
            return x
        n[0] += 1
        if n[0] > limit:
            return x
        v = x.a[0]
        if v in path:
            return go(x.a[1] if path[v] else x.a[2], path)
        ex = _excl(v)
        if ex is not None and path.get(ex):
            return go(x.a[2], dict(path, **{})) if True else x
        known = _boxed_truth(v, facts)
        if known is not None:
            return go(x.a[1] if known else x.a[2], path)
        t = dict(path)
        t[v] = True
        f = dict(path)
        f[v] = False
        # a region given by "not >" includes its boundary: both tests use the closed region
        ct, cf = cons_of(t), cons_of(f)
        can_t = feasible(ct + (_related(ct, facts) if many else facts))
        can_f = feasible(cf + (_related(cf, facts) if many else facts))
        if can_t and not can_f:
            return go(x.a[1], t)
        if can_f and not can_t:
            return go(x.a[2], f)
        a, b = go(x.a[1], t), go(x.a[2], f)
        return mk_ite_var(v, a, b) if a is not b else a
    return go(x, {})


def difference(a, b, facts=(), tol=None, cut=None):
    """None when a and b are equal in every feasible region; otherwise
    (path, leafa, leafb) for one region where they differ.
    facts: extra (poly, rel) constraints.  tol(pa,pb,path) may accept a region."""
    if a is b:
        return None
    pair = apply(lambda x, y: mk("pair", x, y), a, b)
    for path, leaf in paths(pair):
        x, y = leaf.a
        if leaf_equal(x, y):
            continue
        cons = cons_of(path) + list(facts)
        if cut and cut(path):
            continue
        if not feasible(cons):
            continue
        eqs = [p for p, r in clear_signs(cons) if r == "="]
        if x.k == "num" and y.k == "num" and eqs:
            d = p_add(x.a[0], p_scale(y.a[0], Fraction(-1)))
            ok = False
            for e in eqs:
                try:
                    if len(e) > 1 and p_div_exact(d, e) is not None:
                        ok = True
                        break
                except Unknown:
                    pass
                s = _subst_eq(d, e)
                if s is not None:
                    d = s
                try:
                    if p_zero(d):
                        ok = True
                        break
                except Unknown:
                    pass
            if ok:
                continue
            if _deep_subst_equal(x, y, eqs):
                continue
            if any(not _solvable(e) for e in eqs):
                continue          # a boundary (of measure zero) that cannot be resolved: not judged
        # boundary completion: a region given by "not >" and nothing else includes its boundary;
        # a difference there must persist off the boundary, which p_zero already showed.
        if tol and tol(x, y, path):
            continue
        return path, x, y
    return None


def _deep_subst_equal(x, y, eqs):
    """equal after substituting the equalities inside opaque functions too (one pass)"""
    for e in eqs:
        try:
            a = subst_deep(x, e)
            b = subst_deep(y, e)
            if a is not None and b is not None and leaf_equal(a, b):
                return True
        except Unknown:
            pass
    return False


def _solvable(e):
    """a plain linear equality between quantities"""
    return len(e) <= 4 and all(len(m) <= 1 and all(k == 1 for a, k in m) for m, c in e)


def subst_deep(x, eqp):
    target = None
    for m, c in eqp:
        if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]][0] != "inv":
            t = m[0][0]
            if sum(1 for mm, cc in eqp if any(z == t for z, e in mm)) == 1:
                target = (t, c)
                break
    if target is None:
        return None
    t, c = target
    rhs = numP(p_scale(tuple((m, k) for m, k in eqp if m != ((t, 1),)), -1 / c))
    return substitute(x, {t: rhs})


def substitute(x, mp):
    """Replaces atoms (ids) by values, rebuilding opaque applications."""
    memo = {}

    def poly(p):
        r = num(0)
        for m, c in p:
            term = num(c)
            for a, e in m:
                v = at(a)
                for _ in range(abs(e)):
                    term = mul(term, v) if e > 0 else div(term, v)
            r = add(r, term)
        return r

    def at(a):
        if a in mp:
            return mp[a]
        k = ("a", a)
        if k in memo:
            return memo[k]
        d = _atoms[a]
        if d[0] == "inv":
            r = div(num(1), poly(d[1]))
        elif any(isinstance(y, tuple) and len(y) == 2 and y[0] == "v" for y in d[1:]):
            args = [go(_by_id(y)) if isinstance(y, tuple) and len(y) == 2 and y[0] == "v" else y for y in d[1:]]
            if all(isinstance(z, V) for z in args) and all(z.k in ("num", "ite") for z in args):
                r = fn_atom(d[0], *args)
            else:
                r = numP(p_atom(a))
        else:
            r = numP(p_atom(a))
        memo[k] = r
        return r

    def go(x):
        if x.id in memo:
            return memo[x.id]
        if x.k == "num":
            r = poly(x.a[0])
        elif x.k == "ite":
            d = _vars[x.a[0]]
            if d[0] == "gt":
                cnd = gt0(poly(d[1]))
            elif d[0] == "lt":
                cnd = gt0(neg(poly(d[1])))
            else:
                cnd = mk("ite", x.a[0], TRUE, FALSE)
            r = ite(cnd, go(x.a[1]), go(x.a[2]))
        elif x.k == "vec":
            r = mk("vec", *[go(y) for y in x.a])
        else:
            r = x
        memo[x.id] = r
        return r
    return go(x)


def leaf_equal(x, y):
    if x is y:
        return True
    if x.k == "num" and y.k == "num":
        return p_zero(p_add(x.a[0], p_scale(y.a[0], Fraction(-1))))
    if x.k == "vec" and y.k == "vec" and len(x.a) == len(y.a):
        return all(difference(p, q) is None for p, q in zip(x.a, y.a))
    if x.k == "bool" and y.k == "bool":
        return x.a[0] == y.a[0]
    return False
