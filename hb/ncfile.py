"""A netCDF file as the library's calls leave it: dimensions, variables, attributes, and for
every element the value that was put there. Reading calls answer from a described file; any one
call can be made to fail."""
from . import vals as V
from .vals import mk, num, nat, TRUE, FALSE
from .runs import constant

NOTVAR, NOTATT, NOTDIM = -49, -43, -46
KINDS = {"int": 4, "float": 5, "double": 6}


class Unclear(V.Unknown):
    pass


def integer(v):
    c = constant(v)
    if c is None or c.denominator != 1:
        raise Unclear("a size is %s" % V.show(v)[:60])
    return int(c)


class File:
    """fail: the number of the call that fails (from 1), code: what it answers"""

    def __init__(self, w, fail=0, code=-33, content=None):
        self.w, self.fail, self.code = w, fail, code
        self.calls = []            # (name, args)
        self.opened, self.closed = 0, 0
        self.bad, self.unclear = [], []
        self.dims = []             # (name, length)
        self.vars = []             # [name, kind, dim ids, {index tuple: value}]
        self.atts = {}             # (variable id or -1, name): text or list
        self.texts = set()
        self.failed = None
        self.stopped = False       # whether calls were made after the failing one
        if content:
            self.dims, self.vars, self.atts = content

    # ------------------------------------------------------------ memory
    def out(self, a, v):
        if a.k != "addr":
            raise Unclear("an answer goes to %s" % V.show(a)[:60])
        loc = a.a[0]
        # the first element of a container is that of the whole value
        if loc.k == "loc" and loc.a[0] == "ve":
            self.w.st.s[loc] = v
        else:
            self.w.st.s[loc] = v

    def memory(self, a, n):
        """n elements from the address on"""
        if n == 0:
            return []
        if a.k == "vec":
            xs = self.elements(a)
            if len(xs) < n:
                raise Unclear("%d elements are taken from %d" % (n, len(xs)))
            return xs[:n]
        if a.k == "obj" and a.a[0] == "arrptr" and a.a[1].k == "vec":
            xs = list(a.a[1].a)
            if xs and all(x.k == "vec" for x in xs):
                if any(len(x.a) != len(xs[0].a) for x in xs):
                    raise Unclear("rows of different length")
                xs = [x.a[c] for c in range(len(xs[0].a)) for x in xs]
            at = integer(a.a[2])
            if at + n > len(xs):
                raise Unclear("%d elements are taken from %d" % (n, len(xs) - at))
            return xs[at:at + n]
        if a.k != "addr" or a.a[0].k != "loc":
            raise Unclear("data at %s" % V.show(a)[:60])
        loc = a.a[0]
        chain = []
        while loc.k == "loc" and loc.a[0] == "ve":
            chain.append(integer(loc.a[2]) if not isinstance(loc.a[2], int) else loc.a[2])
            loc = loc.a[1]
            whole = self.w.load(loc, "obj")
            if whole.k != "vec":
                break
            if all(x.k != "vec" for x in whole.a):
                at = chain[0]
                xs = list(whole.a)
                if len(chain) == 1 and at + n <= len(xs):
                    up = loc.a[1] if loc.a[0] == "ve" else None
                    upper = self.w.load(up, "obj") if up is not None else None
                    if upper is None or not self.matrix(upper, up) or n == 0:
                        return xs[at:at + n]
            elif len(chain) == 2 and all(x.k == "vec" and all(y.k != "vec" for y in x.a) for x in whole.a):
                rows, cols = len(whole.a), len(whole.a[0].a)
                if any(len(x.a) != cols for x in whole.a):
                    raise Unclear("rows of different length")
                at = chain[0] * rows + chain[1]
                if at + n <= rows * cols:
                    return [whole.a[k % rows].a[k // rows] for k in range(at, at + n)]
        if not chain:
            if n == 1:
                return [self.w.load(loc, "double")]
            whole = self.w.load(loc, "obj")
            if whole.k == "vec" and all(x.k != "vec" for x in whole.a) and len(whole.a) >= n:
                return list(whole.a[:n])
        raise Unclear("%d elements from %s" % (n, V.show(a)[:80]))

    def matrix(self, v, loc):
        """whether the rows at a place are those of one matrix (and not arrays of their own)"""
        ty = str(self.w.locty.get(loc) or "")
        if loc.a[0] == "ve":
            return True            # rows of an element of a list
        return "Array<double, -1, -1" in ty

    def elements(self, v):
        return list(v.a)

    def text(self, a):
        if a.k == "str":
            return a.a[0]
        raise Unclear("a name is %s" % V.show(a)[:60])

    # ------------------------------------------------------------ the library
    def call(self, n, args):
        try:
            return self.answer(n, args)
        except V.Unknown as u:
            self.unclear.append("%s: %s" % (n, u))
            raise

    def answer(self, n, args):
        if n == "nc_strerror":
            return V.string("the reason")
        if n == "nc_free_string":
            return num(0)
        if self.w.st.pc is not TRUE:
            raise Unclear("whether %s is called depends on %s" % (n, V.show(self.w.st.pc)[:80]))
        self.calls.append((n, args))
        if self.failed:
            if n != "nc_close":
                self.stopped = True
        k = len(self.calls)
        if n == "nc_close":
            self.closed += 1
            if integer(args[0]) != 7 or self.closed > self.opened:
                self.bad.append("a file that is not open is closed")
        elif n not in ("nc_open", "nc_create"):
            if integer(args[0]) != 7 or self.closed >= self.opened:
                self.bad.append("%s is called without an open file" % n)
        if k == self.fail:
            self.failed = (n, args)
            return num(self.code)
        m = getattr(self, n, None)
        if m is None:
            raise Unclear("%s is not described" % n)
        r = m(*args)
        return num(0) if r is None else num(r)

    def nc_create(self, path, mode, out):
        self.opened += 1
        self.out(out, num(7))

    nc_open = nc_create

    def nc_close(self, ident):
        pass

    def nc_enddef(self, ident):
        pass

    nc_sync = nc_enddef

    def nc_def_dim(self, ident, name, size, out):
        if self.text(name) in [d[0] for d in self.dims]:
            self.bad.append("dimension %s is defined twice" % self.text(name))
        self.dims.append((self.text(name), integer(size)))
        self.out(out, num(len(self.dims) - 1 + 40))

    def nc_def_var(self, ident, name, kind, count, dims, out):
        ds = self.memory(dims, integer(count))
        ids = [integer(d) - 40 for d in ds]
        if any(not 0 <= d < len(self.dims) for d in ids):
            self.bad.append("variable %s has an unknown dimension" % self.text(name))
        self.vars.append([self.text(name), integer(kind), ids, {}])
        self.out(out, num(len(self.vars) - 1 + 20))

    def nc_def_var_deflate(self, ident, var, shuffle, on, level):
        self.var(var)

    def nc_def_var_chunking(self, *a):
        pass

    nc_def_var_fill = nc_def_var_chunking

    def var(self, v):
        k = integer(v) - 20
        if not 0 <= k < len(self.vars):
            raise Unclear("a variable that is not defined")
        return self.vars[k]

    def shape(self, var):
        return [self.dims[d][1] for d in var[2]]

    def put(self, kind, ident, var, start, count, data):
        x = self.var(var)
        size = self.shape(x)
        if start is None:
            start, count = [0] * len(size), size
        else:
            start = [integer(i) for i in self.memory(start, len(size))]
            count = [integer(i) for i in self.memory(count, len(size))]
        n = 1
        for c in count:
            n *= c
        if any(s + c > d for s, c, d in zip(start, count, size)):
            self.bad.append("%s is written beyond its bounds: %s elements from %s of %s" % (x[0], count, start, size))
            return -57
        vals = self.memory(data, n)
        if kind == "int" and x[1] == 6 or kind == "double" and x[1] in (4, 5):
            pass               # the library converts, which the kind of the variable tells
        for k in range(n):
            idx, r = [], k
            for c in reversed(count):
                idx.append(r % c)
                r //= c
            x[3][tuple(s + i for s, i in zip(start, reversed(idx)))] = vals[k]

    def nc_put_att_text(self, ident, var, name, size, text):
        self.atts[(integer(var) - 20 if integer(var) >= 0 else -1, self.text(name))] = text.a[0] if text.k == "str" else None

    def nc_put_att_string(self, ident, var, name, size, values):
        vs = self.memory(values, integer(size))
        self.atts[(integer(var) - 20 if integer(var) >= 0 else -1, self.text(name))] = list(vs)


def putter(kind):
    def whole(self, ident, var, data):
        return self.put(kind, ident, var, None, None, data)

    def part(self, ident, var, start, count, data):
        return self.put(kind, ident, var, start, count, data)
    return whole, part


for _k in KINDS:
    _w, _p = putter(_k)
    setattr(File, "nc_put_var_" + _k, _w)
    setattr(File, "nc_put_vara_" + _k, _p)


def hook(box, inner=None):
    """a call hook that answers the library's calls from box[0]"""
    def call(ev, e, n, recv, args, tgt):
        if n.startswith("nc_"):
            return box[0].call(n, args)
        if n.startswith("std::filesystem::is_directory") or n.startswith("std::filesystem::exists"):
            return TRUE
        return inner(ev, e, n, recv, args, tgt) if inner else None
    return call
