"""C02: saving the state as initial captures every storage a later reset restores."""
from .. import vals as V
from ..vals import mk, num
from ..scene import *
from ..bench import Missing
from ..mini import Mini
from ..stores import Unit, brick_classes, TYPES
from ..ir import Broken, strip_ty, smart_inner


class Full(Mini):
    """two hydro units and a basin holding every kind of brick"""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.bricks = []          # (brick, {type: store}, label)
        self.covers = []
        self.comps = []
        for k, owner in enumerate((self.add_unit(2), self.add_unit(3), self.basin)):
            parent = None
            for cls in brick_classes(self.p):
                cover = "LandCover" in self.p.bases(cls)
                comp = "SurfaceComponent" in self.p.bases(cls)
                if owner is self.basin and (cover or comp):
                    continue
                b = self.add_brick(owner, cls, "%s_%d" % (cls, k))
                st = {}
                for t, get, e in TYPES:
                    try:
                        st[t] = self.m(b, get)
                    except Missing:
                        pass
                self.bricks.append((b, st, "%s of %s" % (cls, "the basin" if owner is self.basin else "hydro unit %d" % (k + 1))))
                if cover:
                    parent = parent or b
                    self.covers.append((b, self.bricks[-1][2]))
                if comp:
                    self.comps.append(b)
            for b in self.comps:
                if parent is not None:
                    self.m(b, "SetParent", parent)
        if self.throws:
            raise V.Unknown("building the basin throws")

    def fill(self, base):
        out = []
        for i, (b, st, l) in enumerate(self.bricks):
            for t, w in st.items():
                x = nm("%s%d_%s" % (base, i, t))
                self.m(w, "UpdateContent", x.v)
                out.append(("%s of the %s" % (t, l), w, x))
        return out


def whole(ctx, through):
    u = Full(ctx)
    p = ctx.prog
    root = {"basin": u.basin, "model": u.model}[through]
    if through == "model":
        u.put_field(u.model, "ModelHydro", "SubBasin", u.basin)
    cls = "SubBasin" if through == "basin" else "ModelHydro"
    f = u.fn(cls, "SaveAsInitialState", 0)
    r = u.fn("SubBasin", "Reset", 0)
    w = ctx.at(f)
    a = u.fill("a")
    fr = {}
    for b, l in u.covers:
        x = nm("f_" + l.replace(" ", "_"))
        fr[b] = x
        u.m(b, "SetAreaFraction", x.v)
    u.inline(f, root, [])
    for l, st, x in a:
        apply_judge(ctx, "no side effect", "%s %s" % (through, l), w, u.m(st, "GetContentWithChanges"), x.v, (), "content after saving, %s:" % l)
    for b, l in u.covers:
        apply_judge(ctx, "no side effect", "%s %s" % (through, l), w, u.m(b, "GetAreaFraction"), fr[b].v, (), "area fraction after saving, %s:" % l)
    u.fill("b")
    for b, l in u.covers:
        u.m(b, "SetAreaFraction", (fr[b] * nm("g")).v)
    u.inline(r, u.basin, [])
    for l, st, x in a:
        apply_judge(ctx, "restored", "%s %s" % (through, l), w, u.m(st, "GetContentWithChanges"), x.v, (), "content after saving through the %s and resetting, %s:" % (through, l))
    for b, l in u.covers:
        apply_judge(ctx, "restored", "%s fraction %s" % (through, l), w, u.m(b, "GetAreaFraction"), fr[b].v, (), "area fraction after saving and resetting, %s:" % l)
    # the state saved last counts
    c = u.fill("c")
    u.inline(f, root, [])
    u.fill("d")
    u.inline(r, u.basin, [])
    for l, st, x in c:
        apply_judge(ctx, "last saved", "%s %s" % (through, l), w, u.m(st, "GetContentWithChanges"), x.v, (), "content after saving again and resetting, %s:" % l)


def pending(ctx, cls):
    u = Unit(ctx, cls)
    a = {t: nm("a_" + t) for t in u.types}
    for t in u.types:
        u.put(t, a[t])
        u.m(u.stores[t], "AddAmountToDynamicContentChange", nm("d_" + t).v)
        u.m(u.stores[t], "AddAmountToStaticContentChange", nm("s_" + t).v)
    u.m(u.brick, "SaveAsInitialState")
    w = u.at(u.brick, "SaveAsInitialState", 0)
    for t in u.types:
        apply_judge(ctx, "no side effect", "%s pending %s" % (cls, t), w, u.pending(t), (a[t] + nm("d_" + t) + nm("s_" + t)).v, (), "content with pending changes after saving, %s of a %s:" % (t, cls))
    for t in u.types:
        u.put(t, nm("b_" + t))
    u.m(u.brick, "Reset")
    for t in u.types:
        apply_judge(ctx, "restored", "%s %s" % (cls, t), w, u.pending(t), a[t].v, (), "content after saving and resetting, %s of a %s:" % (t, cls))


def weights(ctx, cls):
    """the flux weights follow the restored fractions"""
    u = Unit(ctx, cls)
    fl = []
    for k in ("FluxToOutlet", "FluxToBrick"):
        p, f = u.process(u.brick, u.stores["water"], 1, flux=k)
        u.m(f[0], "SetAsFractionned") if u.has(f[0], "SetAsFractionned") else u.m(f[0], "NeedsWeighting", V.TRUE)
        fl.append(f[0])
    f, g, x = nm("f"), nm("g"), nm("x")
    u.m(u.brick, "SetAreaFraction", f.v)
    u.m(u.brick, "SaveAsInitialState")
    u.m(u.brick, "SetAreaFraction", g.v)
    u.m(u.brick, "Reset")
    w = u.at(u.brick, "SaveAsInitialState", 0)
    for i, l in enumerate(fl):
        u.m(l, "UpdateFlux", x.v)
        apply_judge(ctx, "restored", "%s weight %d" % (cls, i), w, u.m(l, "GetAmount"), (x * f).v, [f > 0, f < 1, g > 0, g < 1], "amount x leaving a %s after its fraction f was saved, changed and reset:" % cls)


def run(ctx):
    ctx.rule("restored", "a reset returns every store and every land cover fraction to its value at the moment of saving")
    ctx.rule("no side effect", "saving changes no content and no fraction")
    ctx.rule("last saved", "the state saved last is the one restored")
    for cls in brick_classes(ctx.prog):
        ctx.each("restored", cls, pending, ctx, cls)
        if "LandCover" in ctx.prog.bases(cls):
            ctx.each("restored", cls, weights, ctx, cls)
    for t in ("basin", "model"):
        ctx.each("restored", t, whole, ctx, t)
