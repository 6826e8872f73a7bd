"""A scene of really constructed model parts: objects are made by their own constructors and
used through their public methods, so that rules speak about observable results and not
about private fields."""
from . import vals as V
from .vals import mk, obj, num, nat, NULL
from .scene import Scene, nm
from .vn import Frame
from .ir import smart_inner, strip_ty, Broken

TEST_PROCESS = "ProcessOutflowLinear"


class Missing(V.Unknown):
    pass


class Bench(Scene):
    def __init__(self, ctx, opaque=(), hooks=None, names=None, **kw):
        super().__init__(ctx, opaque=opaque, hooks=hooks, names=names, **kw)
        self.frames.append(Frame(0, None, None))
        self.cells = 0

    def new(self, cls, *args):
        if cls not in self.p.cls:
            raise Missing("class %s" % cls)
        short = cls.rsplit("::", 1)[-1]
        best = None
        for m in self.p.cls[cls]["methods"]:
            f = self.p.fn.get(m["id"])
            if m["name"] != short or f is None or f.get("deleted"):
                continue
            ps = f["params"]
            if len(ps) == 1 and strip_ty(ps[0]["ty"]) == cls:
                continue
            if sum(1 for q in ps if not q.get("def")) <= len(args) <= len(ps):
                best = m["id"]
        o = obj("new", *self.fresh(cls))
        self.exact[o] = cls
        if best is None:
            return self.default_fields(cls, o)
        return self.construct(cls, best, list(args), o)

    def fn(self, cls, name, nargs=None, pick=None):
        """the method that a call on an object of that exact class runs"""
        p = self.p
        for c in [cls] + list(p.bases(cls)):
            cands = []
            for m in p.cls[c]["methods"]:
                if m["name"] != name:
                    continue
                for i in (p.resolve(m["id"], cls), m["id"]):
                    f = p.fn.get(i)
                    if f is not None and f.get("body"):
                        n = len(f["params"])
                        req = sum(1 for q in f["params"] if not q.get("def"))
                        if nargs is None or req <= nargs <= n:
                            cands.append(f)
                        break
            if pick:
                cands = [f for f in cands if pick(f)] or cands
            if len(cands) > 1:
                raw = [f for f in cands if not any(smart_inner(q["ty"]) and "unique_ptr" in q["ty"] for q in f["params"])]
                cands = raw or cands
            if cands:
                return cands[0]
        raise Missing("%s::%s" % (cls, name))

    def has(self, o, name):
        try:
            self.fn(self.exact[o], name)
            return True
        except Missing:
            return False

    def fits(self, f, args):
        """can the function take these arguments (by kind)"""
        for q, a in zip(f["params"], args):
            k = self.kind(strip_ty(q["ty"]))
            if a.k == "str" and k != "str" or a.k == "num" and k not in ("num", "enum"):
                return False
            if a.k == "enum" and a.a[0].rsplit("::", 1)[0] not in (strip_ty(q["ty"]), "std::" + strip_ty(q["ty"])):
                return False
        return True

    def m(self, o, name, *args, pick=None):
        """o.name(args)"""
        f = self.fn(self.exact[o], name, len(args), pick or (lambda g: self.fits(g, args)))
        self.ctx.at(f)
        return self.inline(f, o, list(args))

    def at(self, o, name, nargs=None):
        return self.ctx.at(self.fn(self.exact[o], name, nargs))

    def put_field(self, o, cls, t, v):
        """every pointer of o to an object of class t points to v"""
        n = 0
        for c in [cls] + [b for b in self.p.bases(cls) if b != cls]:
            for f in self.p.cls[c]["fields"]:
                if strip_ty(smart_inner(f["ty"]) or f["ty"]) == t:
                    self.store(mk("loc", "f", o, f["q"]), v)
                    n += 1
        if not n:
            raise Missing("%s in %s" % (t, cls))

    def cell(self, v):
        """a fresh double variable; gives (address, location)"""
        self.cells += 1
        l = mk("loc", "l", -1, "cell%d" % self.cells)
        self.st.s[l] = v
        self.locty[l] = "double"
        return mk("addr", l), l

    def get(self, l):
        return self.load(l, "double")

    def process(self, brick, container, outs=1, cls=TEST_PROCESS, flux="FluxToOutlet"):
        """a process on the container with output fluxes; gives (process, [fluxes])"""
        p = self.new(cls, container)
        fl = []
        for i in range(outs):
            f = self.new(flux) if flux not in ("FluxToBrick", "FluxToBrickInstantaneous") else self.new(flux, self.new("Storage"))
            self.m(p, "AttachFluxOut", f)
            fl.append(f)
        self.m(brick, "AddProcess", p)
        return p, fl
