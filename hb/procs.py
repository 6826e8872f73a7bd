"""Builds every process kind symbolically the way the model builder does."""
from . import vals as V
from .vals import mk, obj, nat, NULL, TRUE, FALSE
from .scene import Scene, Registry
from .vn import Frame
from .ir import strip_ty, Broken

FORCING = {"pet": "VariableType::PET", "temperature": "VariableType::Temperature",
           "solar_radiation": "VariableType::Radiation", "precipitation": "VariableType::Precipitation"}
CATEGORY = {"Snowpack": "BrickCategory::Snowpack", "Glacier": "BrickCategory::Glacier",
            "GenericLandCover": "BrickCategory::GenericLandCover", "Storage": "BrickCategory::Unknown"}


REAL = False      # parameters are looked up in a settings object instead of being given by name
LAST = []         # processes prepared while REAL


class Proc:
    pass


def registered(ctx, fid):
    """parameters (name -> default value) and forcings declared by a registration function"""
    params, forc = {}, []

    def call(ev, e, n, recv, args, tgt):
        s = n.rsplit("::", 1)[-1]
        if s == "AddProcessParameter" and args and args[0].k == "str":
            params[args[0].a[0]] = args[1] if len(args) > 1 else None
            return V.VOID
        if s == "AddProcessForcing" and args and args[0].k == "str":
            forc.append(args[0].a[0])
            return V.VOID
        return None
    sc = Scene(ctx, hooks={"call": call})
    f = ctx.prog.fn.get(fid)
    if f is None:
        raise Broken("registration function %s not found" % fid)
    sc.call_fn(f, None, [sc.root("settings", "SettingsModel")])
    return params, forc


def build(ctx, reg, typ, brick_cls, hooks=None, names=None, outputs=1, opaque=(), sc=None):
    """creates the process of a type on a brick and passes it through the builder's steps"""
    lam, regf, line, f = reg.rows[typ]
    pr = Proc()
    pr.type = typ
    pr.params, pr.forcings = registered(ctx, regf)
    h = dict(hooks or {})
    h["declared"] = set(pr.params)
    nmz = {"brick.category": mk("enum", CATEGORY[brick_cls])}
    nmz.update(names or {})
    if sc is None:
        sc = Scene(ctx, brick_cls, hooks=h, names=nmz, opaque=opaque)
    else:
        sc.user = dict(sc.user, declared=sc.user["declared"] | h["declared"])
    pr.sc = sc
    fr = Frame(0, f, None)
    sc.frames.append(fr)
    sc.lams.append((lam, fr))
    o = sc.call_lambda(mk("lam", len(sc.lams) - 1), [sc.brick])
    pr.throws = list(sc.throws)
    ls = [x for x in sc.leaves(o)]
    pr.obj = ls[0] if len(ls) == 1 and ls[0].k == "obj" else None
    pr.cls = sc.exact.get(pr.obj)
    if pr.obj is None or pr.cls is None:
        return pr
    pr.container = sc.load(mk("loc", "f", pr.obj, "Process::_container"), "WaterContainer *") if ("Process::_container") in ctx.prog.field else None
    return pr


def method(ctx, cls, name):
    """the method a virtual call on the class dispatches to"""
    p = ctx.prog
    for c in [cls] + list(p.bases(cls)):
        for m in p.cls[c]["methods"]:
            if m["name"] == name:
                r = p.resolve(m["id"], cls)
                if r in p.fn and p.fn[r].get("body"):
                    return p.fn[r]
                if m["id"] in p.fn and p.fn[m["id"]].get("body"):
                    return p.fn[m["id"]]
    return None


def call(pr, name, *args):
    f = method(pr.sc.ctx, pr.cls, name)
    if f is None:
        return None
    pr.sc.ctx.at(f)
    return pr.sc.inline(f, pr.obj, list(args))


def prepare(ctx, pr, target="Storage", outputs=1, flux="out"):
    sc = pr.sc
    call(pr, "SetHydroUnitProperties", sc.unit, sc.brick)
    call(pr, "SetTimeMachine", sc.tm)
    lateral = method(ctx, pr.cls, "AttachFluxOutWithWeight")
    for i in range(outputs or 0):
        fl = sc.root("%s%d" % (flux, i), "FluxToBrick")
        if lateral is not None:
            sc.inline(lateral, pr.obj, [fl, nat(("name", "weight%d" % i))])
        else:
            call(pr, "AttachFluxOut", fl)
    if REAL:
        real_parameters(pr)
    else:
        call(pr, "SetParameters", sc.root("processSettings", None))
    for fo in pr.forcings:
        if fo in FORCING:
            call(pr, "AttachForcing", obj("forcing", FORCING[fo]))
    if target:
        f = method(ctx, pr.cls, "SetTargetBrick")
        if f is not None and f["id"].startswith(pr.cls) or (f is not None and not f["id"].startswith("Process::")):
            sc.inline(f, pr.obj, [sc.root("target", target)])


def real_parameters(pr):
    """the values are given after the process has taken its pointers: a copied value shows as old:<name>"""
    sc = pr.sc
    LAST.append(pr)
    pr.asked = []
    sc.user = dict(sc.user, real=True, asked=pr.asked)
    ps = sc.root("processSettings:" + pr.type, "ProcessSettings")
    objs = []
    for n in pr.params:
        o = sc.parameter(n, sc.names.get(n) or nat(("name", "old:" + n)))
        objs.append((n, o))
    sc.st.s[mk("loc", "f", ps, "ProcessSettings::parameters")] = mk("vec", *[o for n, o in objs])
    n0 = len(sc.throws)
    call(pr, "SetParameters", ps)
    pr.refused = sc.throws[n0:]
    for n, o in objs:
        sc.st.s[mk("loc", "f", o, "Parameter::_value")] = sc.names.get(n) or nat(("name", n))
    sc.user = dict(sc.user, real=False)


def rates(pr):
    return call(pr, "GetChangeRates")
