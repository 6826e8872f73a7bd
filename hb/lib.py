"""Values of standard containers whose content is known entry by entry: maps, sets,
iterators and algorithms over them, value copies of program structs."""
from . import vals as V
from .vals import Unknown, mk, num, ite, TRUE, FALSE, NULL, VOID, obj, apply
from .ir import strip_ty, smart_inner, elem_type, strip_cast

MAPS = ("std::map<", "std::unordered_map<")
SETS = ("std::set<", "std::unordered_set<")
END = "end"


def map_args(t):
    """key and mapped type of a map type, textual"""
    t = strip_ty(t)
    for p in MAPS:
        if t.startswith(p):
            d, parts, cur = 0, [], ""
            for ch in t[len(p):]:
                if ch in "<(":
                    d += 1
                elif ch in ">)":
                    if d == 0:
                        parts.append(cur)
                        return parts[0].strip(), parts[1].strip()
                    d -= 1
                if ch == "," and d == 0:
                    parts.append(cur)
                    cur = ""
                    continue
                cur += ch
    return None


def keyval(k):
    """sort key of a constant key, None when it is not constant"""
    if k.k == "str":
        return (0, k.a[0])
    if k.k == "enum":
        return (1, k.a[0])
    if k.k == "num" and V.p_isconst(k.a[0]):
        return (2, V.p_constval(k.a[0]))
    if k.k == "bool":
        return (3, k.a[0])
    return None


def const_key(k):
    return keyval(k) is not None


class Lib:
    # ------------------------------------------------------------ containers
    def empty_container(self, t):
        t = strip_ty(t)
        if t.startswith("std::vector"):
            return mk("vec")
        if t.startswith(MAPS):
            return mk("map", "s" if t.startswith("std::map") else "u")
        if t.startswith(SETS):
            return mk("set", "s" if t.startswith("std::set") else "u")
        return None

    def map_find(self, m, key):
        for i in range(1, len(m.a), 2):
            if m.a[i] is key:
                return i
        return None

    def map_put(self, m, key, val):
        i = self.map_find(m, key)
        if i is not None:
            return mk("map", *(list(m.a[:i + 1]) + [val] + list(m.a[i + 2:])))
        if not const_key(key):
            raise Unknown("map key")
        ents = [(m.a[j], m.a[j + 1]) for j in range(1, len(m.a), 2)] + [(key, val)]
        if m.a[0] == "s":
            ents.sort(key=lambda kv: keyval(kv[0]))
        return mk("map", m.a[0], *[x for kv in ents for x in kv])

    def set_put(self, s, key):
        if key in s.a[1:]:
            return s
        if not const_key(key):
            raise Unknown("set key")
        ents = list(s.a[1:]) + [key]
        if s.a[0] == "s":
            ents.sort(key=keyval)
        return mk("set", s.a[0], *ents)

    def from_list(self, t, v):
        """container of type t from the elements of a known initialiser list"""
        c = self.empty_container(t)
        if c is None or v.k not in ("vec", "set"):
            return None
        if c.k == "vec":
            return mk("vec", *(v.a if v.k == "vec" else v.a[1:]))
        for x in (v.a if v.k == "vec" else v.a[1:]):
            if c.k == "map":
                if x.k != "vec" or len(x.a) != 2:
                    return None
                if self.map_find(c, x.a[0]) is None:
                    c = self.map_put(c, x.a[0], x.a[1])
            else:
                c = self.set_put(c, x)
        return c

    def entries(self, c):
        """positions of a known container"""
        if c.k == "vec":
            return list(c.a)
        if c.k == "set":
            return list(c.a[1:])
        if c.k == "map":
            return [mk("vec", c.a[i], c.a[i + 1]) for i in range(1, len(c.a), 2)]
        return None

    def place(self, e):
        """(location or None, value) of a container expression"""
        v = self.objof(e)
        if v.k not in ("vec", "map", "set"):
            return None, v
        s = strip_cast(e)
        l = None
        if s.get("k") in ("ref", "mem", "idx") or (s.get("k") == "un" and s["op"] == "*") or (s.get("k") == "call" and s.get("op") == "[]"):
            try:
                l = self.lv(s)
                if l.a[0] == "t":
                    l = None
            except Unknown:
                l = None
        return l, v

    def it(self, l, c, i):
        n = len(self.entries(c))
        return mk("it", l if l is not None else c, END if i == END or i >= n else i)

    def it_coll(self, x):
        return self.load(x.a[0], "obj") if x.a[0].k == "loc" else x.a[0]

    def it_real(self, v):
        """the dereferenceable alternatives of an iterator value"""
        ls = [x for x in self.leaves(v) if x.k == "it"]
        if len(ls) != len(self.leaves(v)):
            return None
        return [x for x in ls if x.a[1] != END]

    def it_loc(self, x, second=False):
        c = self.it_coll(x)
        if x.a[1] == END:
            raise Unknown("past the end")
        if x.a[0].k != "loc":
            return None
        if c.k == "vec":
            return mk("loc", "ve", x.a[0], x.a[1])
        if c.k == "map" and second:
            return mk("loc", "me", x.a[0], c.a[1 + 2 * x.a[1]])
        return None

    def it_deref(self, v):
        def f(x):
            if x.k != "it":
                raise Unknown("iterator")
            if x.a[1] == END:
                return obj("pastend")
            es = self.entries(self.it_coll(x))
            if es is None or x.a[1] >= len(es):
                raise Unknown("iterator")
            return es[x.a[1]]
        return apply(f, v)

    def it_move(self, v, d):
        def f(x):
            if x.k != "it":
                raise Unknown("iterator")
            n = len(self.entries(self.it_coll(x)))
            i = (n if x.a[1] == END else x.a[1]) + d
            if i < 0 or i > n:
                return obj("badit")
            return mk("it", x.a[0], END if i >= n else i)
        return apply(f, v)

    def it_pos(self, x):
        n = len(self.entries(self.it_coll(x)))
        return n if x.a[1] == END else x.a[1]

    def it_range(self, a, b):
        """elements between two known iterators"""
        x, y = self.rv(a), self.rv(b)
        if x.k != "it" or y.k != "it" or x.a[0] is not y.a[0]:
            return None
        i, j = self.it_pos(x), self.it_pos(y)
        if i > j:
            return None
        return x, i, j, self.entries(self.it_coll(x))[i:j]

    # ------------------------------------------------------------ copies
    def by_value(self, v, t):
        """a copy when a program object is copied by value"""
        if v is None:
            return v
        if v.k == "obj" and strip_ty(t or "") in self.p.cls and not (t or "").strip().endswith("*") and self.exact.get(v) is not None:
            return self.deepcopy(v)
        if v.k == "vec":
            et = elem_type(t or "")
            if et and strip_ty(et) in self.p.cls and not et.strip().endswith("*") and smart_inner(et) is None:
                return mk("vec", *[self.by_value(x, et) for x in v.a])
            if et and strip_ty(et).startswith("std::vector"):
                return mk("vec", *[self.by_value(x, et) for x in v.a])
        return v

    def deepcopy(self, o, to=None):
        t = self.exact.get(o)
        n = to if to is not None else obj("new", *self.fresh(t))
        self.exact[n] = t
        mine = [l for l in self.st.s if l.a[0] == "f" and l.a[1] is o]
        todo = []
        for c in self.p.bases(t) if t in self.p.cls else []:
            if c not in self.p.cls:
                continue
            for fd in self.p.cls[c]["fields"]:
                l = mk("loc", "f", o, fd["q"])
                m = mk("loc", "f", n, fd["q"])
                if self.kind(fd["ty"]) == "class" and self.exact.get(self.objat(l)) is not None:
                    if l in self.st.s:
                        self.store(m, self.by_value(self.st.s[l], fd["ty"]), fd["ty"])
                    else:
                        self.deepcopy(self.objat(l), self.objat(m))
                    continue
                if l in self.st.s:
                    self.store(m, self.by_value(self.st.s[l], fd["ty"]), fd["ty"])
                elif to is not None and m in self.st.s:
                    del self.st.s[m]
        return n

    # ------------------------------------------------------------ calls
    def lib_call(self, e, n, short):
        R, A, op = e.get("recv"), e.get("args", []), e.get("op")
        isiter = "_iterator<" in n or "iterator" in n.rsplit("::", 2)[-2] if "::" in n else False
        if R is not None and op == "=" and strip_ty(e.get("ty") or e.get("rty") or "") in self.p.cls and e.get("fn") not in self.p.fn and n.endswith("::operator="):
            v = self.rv(A[0])
            l = self.lv(R)
            t = strip_ty(e.get("ty") or e.get("rty"))
            cur = self.st.s.get(l)
            if v.k == "obj" and self.exact.get(v) is not None:
                if cur is not None or l.a[0] in ("l", "ve", "me", "e"):
                    self.store(l, self.deepcopy(v))
                else:
                    o = self.objat(l)
                    self.exact.setdefault(o, t)
                    self.deepcopy(v, o)
                return v
            return None
        if R is not None and n.startswith(MAPS):
            return self.map_call(e, n, short, R, A, op)
        if R is not None and n.startswith(SETS):
            return self.set_call(e, n, short, R, A, op)
        if R is not None and n.startswith(("std::vector", "std::array", "std::initializer_list")) and short in ("begin", "end", "cbegin", "cend", "rbegin", "rend"):
            l, c = self.place(R)
            if c.k == "vec" and short in ("begin", "cbegin", "end", "cend"):
                return self.it(l, c, 0 if "begin" in short else END)
            return None
        if R is not None and n.startswith("std::vector") and short == "erase":
            l, c = self.place(R)
            if c.k != "vec" or l is None:
                return None
            if len(A) == 1:
                x = self.rv(A[0])
                if x.k != "it":
                    return None
                i, j = self.it_pos(x), self.it_pos(x) + 1
            else:
                r = self.it_range(A[0], A[1])
                if r is None:
                    return None
                i, j = r[1], r[2]
            self.store(l, mk("vec", *(list(c.a[:i]) + list(c.a[j:]))))
            return self.it(l, self.load(l, "obj"), i)
        if R is not None and n.startswith("std::vector") and short in ("insert", "emplace") and not self.loops and len(A) in (2, 3):
            l, c = self.place(R)
            x = self.rv(A[0])
            if c.k == "vec" and l is not None and x.k == "it" and x.a[0] is l:
                i = self.it_pos(x)
                if len(A) == 2:
                    add = [self.rv(A[1])]
                    if add[0].k == "vec" and "initializer_list" in (e.get("fn") or ""):
                        add = list(add[0].a)
                else:
                    r = self.it_range(A[1], A[2])
                    if r is None:
                        return None
                    add = list(r[3])
                c = self.load(l, "obj")
                self.store(l, mk("vec", *(list(c.a[:i]) + add + list(c.a[i:]))))
                return self.it(l, self.load(l, "obj"), i)
        if R is not None and n.startswith("std::vector") and short == "pop_back":
            l, c = self.place(R)
            if c.k == "vec" and c.a and l is not None:
                self.store(l, mk("vec", *c.a[:-1]))
                return VOID
            return None
        if "iterator" in n and ("::operator" in n or short.startswith("operator")):
            vs = ([self.rv(R)] if R is not None else []) + [self.rv(a) for a in A]
            if not vs or not all(x.k in ("it", "obj") for x in self.leaves(vs[0])) or not any(x.k == "it" for x in self.leaves(vs[0])):
                return None
            if op == "->":
                return vs[0]
            if op == "*":
                return self.it_deref(vs[0])
            if op in ("++", "--") and R is not None:
                l = self.lv(R)
                new = self.it_move(vs[0], 1 if op == "++" else -1)
                self.store(l, new)
                return vs[0] if A else new
            if op in ("+", "-", "+=", "-=") and len(vs) == 2 and vs[1].k == "num" and V.p_isconst(vs[1].a[0]):
                d = int(V.p_constval(vs[1].a[0]))
                new = self.it_move(vs[0], d if op[0] == "+" else -d)
                if len(op) == 2:
                    self.store(self.lv(R), new)
                return new
            if op == "-" and len(vs) == 2:
                return apply(lambda x, y: num(self.it_pos(x) - self.it_pos(y)), vs[0], vs[1])
            if op in ("==", "!=") and len(vs) == 2:
                r = V.eq(vs[0], vs[1])
                return r if op == "==" else V.b_not(r)
            if op in ("<", ">", "<=", ">="):
                f = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}[op]
                return apply(lambda x, y: V.boolean(f(self.it_pos(x), self.it_pos(y))), vs[0], vs[1])
            return None
        if op in ("==", "!=") and len(A) == 2 and R is None and "operator" in n and n.startswith("std::"):
            a, b = self.rv(A[0]), self.rv(A[1])
            if any(x.k == "it" for x in self.leaves(a)) and any(x.k == "it" for x in self.leaves(b)):
                r = V.eq(a, b)
                return r if op == "==" else V.b_not(r)
            if a.k == b.k and a.k in ("set", "map", "vec"):
                r = self.same(a, b)
                return r if op == "==" else V.b_not(r)
            return None
        if R is not None and n.endswith("::operator bool") and "basic_ios" in n:
            g = strip_cast(R)
            if g.get("k") == "call" and g.get("n") == "std::getline":
                v = self.rv(g)
                return v if v in (TRUE, FALSE) else None
            return None
        if R is None and n == "std::getline" and len(A) in (2, 3):
            return self.getline(A)
        if R is None and n.startswith("std::"):
            return self.algorithm(e, n, short, A)
        return None

    def getline(self, A):
        """the next piece of a text stream over a known text"""
        l, t = self.lv(A[0]), self.lv(A[1])
        v = self.load(l, "obj")
        d = self.rv(A[2]) if len(A) == 3 else num(10)
        if v.k != "obj" or d.k != "num" or not V.p_isconst(d.a[0]):
            return None
        if v.a[0] == "ctor" and "istringstream" in str(v.a[1]) and len(v.a) > 2 and v.a[2].k == "str":
            text, pos = v.a[2].a[0], 0
        elif v.a[0] == "istream":
            text, pos = v.a[1], v.a[2]
        else:
            return None
        if pos >= len(text):
            self.store(l, obj("istream", text, len(text)))
            self.store(t, V.string(""))
            return FALSE
        i = text.find(chr(int(V.p_constval(d.a[0]))), pos)
        j = len(text) if i < 0 else i
        self.store(t, V.string(text[pos:j]))
        self.store(l, obj("istream", text, j + 1))
        return TRUE

    def same(self, a, b):
        x, y = self.entries(a), self.entries(b)
        if a.k == "vec" or a.a[0] == "s":
            if len(x) != len(y):
                return FALSE
            r = TRUE
            for p, q in zip(x, y):
                r = V.b_and(r, self.same(p, q) if p.k == "vec" and q.k == "vec" else V.eq(p, q))
            return r
        return V.boolean(set(x) == set(y))

    def member_iter(self, l, c, keys, key, first=1):
        """iterator to the entry with the given key"""
        r = mk("it", l if l is not None else c, END)
        for i in reversed(range(len(keys))):
            r = ite(V.eq(keys[i], key), mk("it", l if l is not None else c, i), r)
        return r

    def map_call(self, e, n, short, R, A, op):
        l, c = self.place(R)
        if c.k != "map":
            return None
        keys = [c.a[i] for i in range(1, len(c.a), 2)]
        if short in ("size", "empty"):
            return num(len(keys)) if short == "size" else V.boolean(not keys)
        if short in ("begin", "cbegin", "end", "cend"):
            return self.it(l, c, 0 if "begin" in short else END)
        if short in ("find", "contains", "count", "at") or op == "[]":
            k = self.rv(A[0])
            if short == "find":
                return self.member_iter(l, c, keys, k)
            if short in ("contains", "count"):
                r = FALSE
                for x in keys:
                    r = V.b_or(r, V.eq(x, k))
                return r if short == "contains" else ite(r, num(1), num(0))
            i = self.map_find(c, k)
            if i is not None:
                return c.a[i + 1]
            if op == "[]":
                return self.load(self.map_slot(e), e.get("ty") or "obj")
            return None
        if short in ("emplace", "try_emplace", "insert_or_assign", "insert") and l is not None:
            vs = [self.rv(a) for a in A]
            if len(vs) == 1 and vs[0].k == "vec" and len(vs[0].a) == 2:
                vs = list(vs[0].a)
            if len(vs) != 2:
                return None
            at = self.map_find(c, vs[0])
            if at is None or short == "insert_or_assign":
                ma = map_args(e.get("rty") or self.numty(R) or "")
                c2 = self.map_put(c, vs[0], self.by_value(vs[1], ma[1] if ma else None))
                self.store(l, c2)
            return mk("vec", self.member_iter(l, self.load(l, "obj"), [x for x in self.load(l, "obj").a[1::2]], vs[0]), V.boolean(at is None))
        if short == "clear" and l is not None:
            self.store(l, mk("map", c.a[0]))
            return VOID
        if short == "erase" and l is not None and len(A) == 1:
            k = self.rv(A[0])
            i = k.a[1] * 2 + 1 if k.k == "it" and k.a[1] != END else self.map_find(c, k)
            if i is not None:
                self.store(l, mk("map", *(list(c.a[:i]) + list(c.a[i + 2:]))))
            elif not const_key(k):
                return None
            return num(1 if i is not None else 0)
        if short in ("reserve",):
            return VOID
        if op == "=" and l is not None:
            v = self.rv(A[0])
            self.store(l, self.from_list(e.get("rty") or self.numty(R) or "", v) or v)
            return v
        return None

    def map_slot(self, e):
        """location of m[k], created when missing"""
        R = e["recv"]
        l, c = self.place(R)
        if c.k != "map" or l is None:
            raise Unknown("map element")
        k = self.rv(e["args"][0])
        if self.map_find(c, k) is None:
            if not const_key(k):
                raise Unknown("map key")
            ma = map_args(e.get("rty") or self.numty(R) or "")
            if e["n"].endswith("::at"):
                raise Unknown("missing map key")
            self.store(l, self.map_put(c, k, self.default_value(ma[1] if ma else "double")))
        return mk("loc", "me", l, k)

    def default_value(self, t):
        c = self.empty_container(t)
        return c if c is not None else self.default(t)

    def set_call(self, e, n, short, R, A, op):
        l, c = self.place(R)
        if c.k != "set":
            return None
        keys = list(c.a[1:])
        if short in ("size", "empty"):
            return num(len(keys)) if short == "size" else V.boolean(not keys)
        if short in ("begin", "cbegin", "end", "cend"):
            return self.it(l, c, 0 if "begin" in short else END)
        if short in ("find", "contains", "count"):
            k = self.rv(A[0])
            if short == "find":
                return self.member_iter(l, c, keys, k)
            r = FALSE
            for x in keys:
                r = V.b_or(r, V.eq(x, k))
            return r if short == "contains" else ite(r, num(1), num(0))
        if short in ("insert", "emplace") and l is not None and len(A) == 1:
            k = self.rv(A[0])
            new = k not in keys
            self.store(l, self.set_put(c, k))
            c2 = self.load(l, "obj")
            return mk("vec", self.member_iter(l, c2, list(c2.a[1:]), k), V.boolean(new))
        if short in ("insert",) and l is not None and len(A) == 2:
            r = self.it_range(A[0], A[1])
            if r is None:
                return None
            for k in r[3]:
                c = self.set_put(c, k)
            self.store(l, c)
            return VOID
        if short == "clear" and l is not None:
            self.store(l, mk("set", c.a[0]))
            return VOID
        if short == "erase" and l is not None and len(A) == 1:
            k = self.rv(A[0])
            if k.k == "it":
                k = keys[k.a[1]] if k.a[1] != END else k
            if not const_key(k):
                return None
            self.store(l, mk("set", c.a[0], *[x for x in keys if x is not k]))
            return num(1 if k in keys else 0)
        if op == "=" and l is not None:
            v = self.rv(A[0])
            self.store(l, self.from_list(e.get("rty") or self.numty(R) or "", v) or v)
            return v
        return None

    def call_pred(self, f, *vs):
        if f.k == "lam":
            return V.tobool(self.call_lambda(f, list(vs)))
        raise Unknown("predicate")

    def algorithm(self, e, n, short, A):
        short = short.split("<")[0]
        rng = n.startswith("std::ranges::")
        if short in ("find", "find_if", "find_if_not", "any_of", "all_of", "none_of", "count", "count_if", "distance", "next", "prev", "advance",
                     "sort", "stable_sort", "includes", "max_element", "min_element", "reverse", "equal", "is_sorted"):
            if short in ("next", "prev") and A:
                v = self.rv(A[0])
                d = self.rv(A[1]) if len(A) > 1 else num(1)
                if not all(x.k == "it" for x in self.leaves(v)) or d.k != "num" or not V.p_isconst(d.a[0]):
                    return None
                k = int(V.p_constval(d.a[0]))
                return self.it_move(v, k if short == "next" else -k)
            if short == "distance":
                if len(A) != 2:
                    return None
                a, b = self.rv(A[0]), self.rv(A[1])
                if not all(x.k == "it" for v in (a, b) for x in self.leaves(v)):
                    return None
                return apply(lambda x, y: num(self.it_pos(y) - self.it_pos(x)), a, b)
            if len(A) < 2:
                return None
            r = self.it_range(A[0], A[1])
            if r is None:
                return None
            x0, i0, j0, es = r
            if short in ("find", "find_if", "find_if_not"):
                t = self.rv(A[2])
                out = mk("it", x0.a[0], END if j0 >= len(self.entries(self.it_coll(x0))) else j0)
                for i in reversed(range(len(es))):
                    c = V.eq(es[i], t) if short == "find" else self.call_pred(t, es[i])
                    if short == "find_if_not":
                        c = V.b_not(c)
                    out = ite(c, mk("it", x0.a[0], i0 + i), out)
                return out
            if short in ("any_of", "all_of", "none_of", "count", "count_if"):
                t = self.rv(A[2])
                cs = [V.eq(x, t) if short == "count" else self.call_pred(t, x) for x in es]
                if short.startswith("count"):
                    s = num(0)
                    for c in cs:
                        s = V.add(s, ite(c, num(1), num(0)))
                    return s
                out = FALSE if short != "all_of" else TRUE
                for c in cs:
                    out = V.b_or(out, c) if short != "all_of" else V.b_and(out, c)
                return V.b_not(out) if short == "none_of" else out
            if short in ("sort", "stable_sort"):
                if x0.a[0].k != "loc":
                    return None
                from functools import cmp_to_key
                lam = self.rv(A[2]) if len(A) > 2 else None

                def less(p, q):
                    c = self.call_pred(lam, p, q) if lam is not None else V.lt(p, q)
                    if c not in (TRUE, FALSE):
                        raise Unknown("order of unknown values")
                    return c is TRUE
                es2 = sorted(es, key=cmp_to_key(lambda p, q: -1 if less(p, q) else (1 if less(q, p) else 0)))
                c = self.it_coll(x0)
                self.store(x0.a[0], mk("vec", *(list(c.a[:i0]) + es2 + list(c.a[j0:]))))
                return VOID
            if short == "reverse" and x0.a[0].k == "loc":
                c = self.it_coll(x0)
                self.store(x0.a[0], mk("vec", *(list(c.a[:i0]) + es[::-1] + list(c.a[j0:]))))
                return VOID
            if short == "includes" and len(A) == 4:
                q = self.it_range(A[2], A[3])
                if q is None or not all(const_key(x) for x in es + q[3]):
                    return None
                return V.boolean(set(q[3]) <= set(es))
        return None
