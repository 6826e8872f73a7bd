"""Builds splitters symbolically the way the model builder does."""
from . import vals as V
from .vals import mk, obj, nat, num, NULL, TRUE, FALSE
from .scene import Scene, literal_rows
from .vn import Frame
from .ir import walk, Broken

SNAMES = {"VariableType::Precipitation": "Precipitation", "VariableType::Temperature": "Temperature",
          "VariableType::TemperatureMin": "TemperatureMin", "VariableType::TemperatureMax": "TemperatureMax"}


def rows(ctx):
    """splitter type -> (lambda, line, function)"""
    out = {}
    for fid, f in ctx.prog.fn.items():
        if not f["file"].endswith("/Splitter.cpp"):
            continue
        for name, node, line in literal_rows(f):
            lam = next((y for y in walk(node, into_lambda=False) if y.get("k") == "lambda"), None)
            if lam is not None:
                out[name] = (lam, line, f)
    if not out:
        raise Broken("the registry of splitters was not found")
    return out


def registered(ctx):
    """splitter type -> forcings/parameters used by the settings for that kind is not fixed: the forcings the class accepts"""
    return None


def method(ctx, cls, name):
    p = ctx.prog
    for c in [cls] + list(p.bases(cls)):
        for m in p.cls[c]["methods"]:
            if m["name"] == name:
                r = p.resolve(m["id"], cls)
                if r in p.fn and p.fn[r].get("body"):
                    return p.fn[r]
                if m["id"] in p.fn and p.fn[m["id"]].get("body"):
                    return p.fn[m["id"]]
    return None


class Split:
    pass


def build(ctx, typ, row, params=(), opaque=(), hooks=None, names=None, real=False):
    lam, line, f = row
    sp = Split()

    sp.asked = []
    nz = {"rain.fractionTotal": num(1), "snow.fractionTotal": num(1)}
    for i in range(6):
        nz["out%d.fractionTotal" % i] = num(1)
    nz.update(names or {})
    def call(ev, e, n, recv, args, tgt):
        if n.startswith("Splitter::GetParameterValuePointer") and len(args) > 1 and args[1].k == "str":
            sp.asked.append(args[1].a[0])
        return hooks["call"](ev, e, n, recv, args, tgt) if hooks and "call" in hooks else None
    sc = Scene(ctx, hooks=dict(hooks or {}, call=call), names=nz, opaque=opaque)
    sp.sc = sc
    fr = Frame(0, f, None)
    sc.frames.append(fr)
    sc.lams.append((lam, fr))
    sp.settings = sc.root("splitterSettings", "SplitterSettings")
    objs = [sc.parameter(x, nat(("name", ("old:" if real else "") + x))) for x in params]
    sc.st.s[mk("loc", "f", sp.settings, "SplitterSettings::parameters")] = mk("vec", *objs)
    o = sc.call_lambda(mk("lam", len(sc.lams) - 1), [sp.settings])
    ls = list(sc.leaves(o))
    sp.obj = ls[0] if len(ls) == 1 and ls[0].k == "obj" else None
    sp.cls = sc.exact.get(sp.obj)
    sp.refused = list(sc.throws)
    if sp.cls is None:
        return sp
    m = method(ctx, sp.cls, "SetParameters")
    call_m(sp, "SetParameters", sp.settings)
    sp.refused = list(sc.throws)
    for x, ob in zip(params, objs):
        sc.st.s[mk("loc", "f", ob, "Parameter::_value")] = nat(("name", x))
    return sp


def call_m(sp, name, *args):
    f = method(sp.sc.ctx, sp.cls, name)
    if f is None:
        return None
    sp.sc.ctx.at(f)
    return sp.sc.inline(f, sp.obj, list(args))


def amount(sp, fl):
    return sp.sc.load(mk("loc", "f", fl, "Flux::_amount"), "double")
