"""The stores of each brick kind, found by what the brick hands out."""
from . import vals as V
from .vals import mk, num
from .scene import *
from .bench import Bench, Missing
from .ir import Broken

TYPES = [("water", "GetWaterContainer", "ContentType::Water"), ("snow", "GetSnowContainer", "ContentType::Snow"), ("ice", "GetIceContainer", "ContentType::Ice")]


def brick_classes(p):
    out = []
    for c in sorted(p.subs("Brick")):
        if not p.cls[c].get("abstract") and c not in ("Brick", "LandCover", "SurfaceComponent"):
            out.append(c)
    if not out:
        raise Broken("no brick class was found")
    return out


class Unit(Bench):
    """a brick of that class (in a hydro unit, with a parent if it is a surface component)"""

    def __init__(self, ctx, cls, **kw):
        super().__init__(ctx, **kw)
        self.cls = cls
        self.brick = self.new(cls)
        self.m(self.brick, "SetName", V.string("b"))
        self.parent = None
        if "SurfaceComponent" in self.p.bases(cls):
            self.parent = self.new("GenericLandCover")
            self.m(self.brick, "SetParent", self.parent)
        self.stores = {}
        for t, get, en in TYPES:
            try:
                self.stores[t] = self.m(self.brick, get)
            except Missing:
                pass
        if any(self.exact.get(w) is None for w in self.stores.values()):
            raise V.Unknown("stores of %s" % cls)
        self.types = list(self.stores)

    def enum(self, t):
        return mk("enum", dict((a, c) for a, b, c in TYPES)[t])

    def content(self, t):
        return self.m(self.stores[t], "GetContentWithoutChanges")

    def pending(self, t):
        return self.m(self.stores[t], "GetContentWithChanges")

    def put(self, t, v):
        self.m(self.stores[t], "UpdateContent", N(v).v)
