"""C21: changed parameters reach every part that uses them.

Two models of the same structure are put together by evaluating the settings, basin and
builder code: one with new (unknown) parameter values from the start, the other with old
values, changed in the settings after initialisation and then updated. Everything the bricks,
processes, splitters and fluxes then hold or refer to has to be the same in both."""
import re
from .. import vals as V
from ..vals import mk, num, nat, TRUE, FALSE
from ..scene import *
from ..bench import Missing
from ..structures import Built, STRUCTURES, FLAGS
from ..ir import Broken

ASSUMPTIONS = ["The structures in hb/structures.py stand for all.",
               "Parameter values are unknown, except base times of unit hydrographs and switches, which take one old and one new number.",
               "A parameter that two processes of one brick share by name can only be addressed for the first of them; the names in settings are the user's."]
NUMBERS = {"uh_base_time": (2.5, 1.5), "maxbas": (2.5, 3.5), "infinite_storage": (1, 0), "no_melt_when_snow_cover": (1, 0)}


def number(b, new, flip=False):
    """give the parameters that take numbers their old or new one"""
    w = b.w
    for pth, o in b.walk(w.settings, owned=True):
        if w.exact.get(o) == "Parameter":
            n = b.text(o, "GetName")
            if n in NUMBERS:
                for f in b.fields(o):
                    if w.kind(f["ty"]) == "num":
                        w.st.s[mk("loc", "f", o, f["q"])] = num(str(NUMBERS[n][1 - new if flip else new]))


def settle(b, tag, flip):
    b.symbols(tag)
    number(b, 1 if tag else 0, flip)


def start(ctx, name, tag, flip):
    b = Built(ctx, name)
    settle(b, tag, flip)
    r = b.initialize()
    if not b.clean or b.w.isok(r) is not TRUE:
        raise Broken("the structure %s cannot be initialised in the analysis: %s %s" % (name, V.show(r)[:200], b.w.notes[:3]))
    return b


def held(b):
    """{path: what the model holds there}, pointers to numbers followed"""
    w, out = b.w, {}

    def res(v):
        if v.k == "addr":
            x = w.st.s.get(v.a[0])
            if x is not None and x.k == "num":
                return mk("ref", x)
            return mk("ref")
        if v.k == "obj":
            return mk("obj", w.exact.get(v, "?"))
        if v.k in ("vec", "map", "set"):
            return mk(v.k, *[res(x) if hasattr(x, "k") else x for x in v.a])
        return v

    for pth, o in b.walk(b.sub):
        if o not in w.exact:
            continue
        for f in b.fields(o):
            v = w.st.s.get(mk("loc", "f", o, f["q"]))
            if v is not None:
                out[pth + "." + f["q"].rsplit("::", 1)[-1]] = (res(v), o, f["q"])
    return out


def flat(v):
    if v.k in ("vec", "map", "set", "ref"):
        out = []
        for x in v.a:
            out += flat(x) if hasattr(x, "k") else []
        return out
    return [v]


def refresh(ctx, name, flip):
    new = start(ctx, name, "'", flip)
    b = start(ctx, name, "", flip)
    w = b.w
    settle(b, "'", flip)
    where = w.at(b.model, "UpdateParameters")
    w.m(b.model, "UpdateParameters", w.settings)
    if not b.clean:
        ctx.bad("updated", "%s exception" % name, where, "%s: updating the parameters throws %s" % (name, str(w.escaped()[0])[:200])) if w.escaped() else ctx.und("updated", name, "the update left the analysis domain")
        return
    A, B = held(new), held(b)
    if set(A) != set(B):
        ctx.check(False, "updated", "%s extent" % name, where, "%s: updating changes the extent of the model: %s" % (name, sorted(set(A) ^ set(B))[:4]))
    names = {}
    for pth, o in b.walk(b.sub):
        names[o] = pth
    for k in sorted(set(A) & set(B)):
        (x, _, q), (y, o, _) = A[k], B[k]
        fx, fy = flat(x), flat(y)
        key = "%s %s" % (name, k)
        if x == y:
            ctx.ok("updated", key, where)
            continue
        if len(fx) == len(fy) and all(p.k == "num" and r.k == "num" or p == r for p, r in zip(fx, fy)):
            for p, r in zip(fx, fy):
                if p.k == "num" and p != r:
                    apply_judge(ctx, "updated", key, where, r, p, (), "%s: %s after the update:" % (name, label(b, o, q)))
        elif any(z.k in ("unk", "top") for z in fx + fy):
            ctx.und("updated", key, "not resolved")
        else:
            ctx.check(False, "updated", key, where, "%s: %s holds %s after the update, %s in a model built with the new values" % (name, label(b, o, q), V.show(y)[:80], V.show(x)[:80]))


def label(b, o, q):
    """field q of o with the names of the elements it belongs to"""
    w = b.w
    for i, owner in [(0, b.sub)] + [(b.uid(u), u) for u in b.units()]:
        for sp in b.splitters(owner):
            if sp == o:
                return "%s of splitter %s (unit %d)" % (q, b.nm(sp), i)
        for br in b.bricks(owner):
            if br == o:
                return "%s of %s (unit %d)" % (q, b.nm(br), i)
            for pr in b.processes(br):
                if pr == o or any(pr == x for x in o.a):
                    return "%s of %s.%s (unit %d)" % (q, b.nm(br), b.nm(pr), i)
    return q


# ------------------------------------------------------------------ naming them
class Places:
    """the parameters of the settings by variant, component and process"""

    def __init__(self, b):
        w = self.w = b.w
        self.b = b
        self.splitters = set()
        self.rows = []     # (location, variant, component, type or None, process or None, name)
        for pth, o in b.walk(w.settings, owned=True):
            if w.exact.get(o) != "Parameter":
                continue
            chain = self.chain(pth)
            st = [x for c, x in chain if c.endswith("ModelStructure")]
            comp = next((x for c, x in chain if c in ("BrickSettings", "SplitterSettings")), None)
            pr = next((x for c, x in chain if c == "ProcessSettings"), None)
            loc = next(mk("loc", "f", o, f["q"]) for f in b.fields(o) if w.kind(f["ty"]) == "num")
            if comp is None:
                continue
            if any(c == "SplitterSettings" for c, x in chain):
                self.splitters.add(loc)
            self.rows.append((loc, chain[0][1], self.word(comp, "name"), self.word(comp, "type"), self.word(pr, "name") if pr is not None else None, b.text(o, "GetName")))

    def chain(self, path):
        o, out = self.b.w.settings, []
        for name, idx in re.findall(r"\.([A-Za-z_0-9]+)((?:\[\d+\])*)", path):
            f = next(f for f in self.b.fields(o) if f["q"].rsplit("::", 1)[-1] == name)
            v = self.w.st.s.get(mk("loc", "f", o, f["q"]))
            if v is None or v.k != "vec":
                return out
            for i in re.findall(r"\d+", idx):
                o = v.a[int(i)]
            out.append((self.w.exact.get(o, "?").rsplit("::", 1)[-1], o))
        return out

    def word(self, o, n):
        for f in self.b.fields(o):
            if f["q"].rsplit("::", 1)[-1] == n:
                v = self.w.st.s.get(mk("loc", "f", o, f["q"]))
                if v is not None and v.k == "str":
                    return v.a[0]
        return None


def setter(ctx, name):
    b = Built(ctx, name)
    w = b.w
    pl = Places(b)
    if len(pl.rows) < len(b.params):
        raise Broken("only %d of %d parameters of %s could be placed" % (len(pl.rows), len(b.params), name))
    where = w.at(w.settings, "SetParameterValue")
    tick = 0

    def change(comp, par, must, may, what):
        nonlocal tick
        tick += 1
        s0 = b.snap()
        before = dict(w.st.s)
        x = nat(("name", "value%d" % tick))
        key = "%s %s:%s" % (name, comp, par)
        r = w.m(w.settings, "SetParameterValue", V.string(comp), V.string(par), x)
        esc = w.escaped()
        if esc:
            ctx.check(False, "named", key, where, "%s: setting %s of %s throws (%s)" % (name, par, comp, str(esc[0])[:200]))
        elif not b.clean or r.k != "bool":
            ctx.und("named", key, "left the analysis domain")
        else:
            ctx.check(r == TRUE, "named", key, where, "%s: setting %s of %s is refused" % (name, par, comp))
            for row in pl.rows:
                l = row[0]
                now, old = w.st.s.get(l), before.get(l)
                if row in must:
                    what = "%s: setting %s of %s does not reach %s%s" % (name, par, comp, row[2], "." + row[4] if row[4] else "")
                    if now == x or now == old:
                        ctx.check(now == x, "named", key + " " + str(row[2:]), where, what)
                    elif now is not None and now.k == "num" and all(V.atom_desc(a)[0] == "name" for m, _ in now.a[0] for a, _ in m):
                        apply_judge(ctx, "named", key + " " + str(row[2:]), where, now, x, (), what)
                    else:
                        ctx.und("named", key + " " + str(row[2:]), "not resolved")
                elif row not in may:
                    ctx.check(now == old, "named", key + " else " + str(row[2:]), where,
                              "%s: setting %s of %s also changes %s of %s%s" % (name, par, comp, row[5], row[2], "." + row[4] if row[4] else ""))
        b.back(s0)

    done = set()
    for row in pl.rows:
        _, var, comp, ty, pr, par = row
        if (comp, par) in done:
            continue
        done.add((comp, par))
        same = [r for r in pl.rows if r[2] == comp and r[5] == par]
        first = []
        for v in {r[1] for r in same}:
            here = [r for r in same if r[1] == v]
            first += [r for r in here if r[4] is None] or here if len(here) > 0 else []
        must = [r for r in first if sum(1 for q in first if q[1] == r[1]) == 1]
        change(comp, par, must, same, "")
    kinds = set()
    for row in pl.rows:
        _, var, comp, ty, pr, par = row
        if ty is None or (ty, par) in kinds:
            continue
        if is_splitter(pl, row):
            continue
        kinds.add((ty, par))
        same = [r for r in pl.rows if r[3] == ty and r[5] == par and not is_splitter(pl, r)]
        must = [r for r in same if sum(1 for q in same if q[1:3] == r[1:3]) == 1]
        bricks = all_of_type(pl, ty)
        if any((v, c) not in {(r[1], r[2]) for r in same} for v, c in bricks):
            continue            # some bricks of the type lack the parameter: refusing is in order
        change("type:" + ty, par, must, same, "")
    covers = [c for _, c, ty in bricks_of(pl) if ty in ("generic_land_cover", "glacier")]
    for par in sorted({r[5] for r in pl.rows if r[2] in covers}):
        same = [r for r in pl.rows if r[2] in covers and r[5] == par]
        if len({r[2] for r in same}) == len(set(covers)) > 1:
            must = [r for r in same if sum(1 for q in same if q[1:3] == r[1:3]) == 1]
            change("type:land_cover", par, must, same, "")
    two = sorted({r[2] for r in pl.rows if r[5] == "melting_temperature"})
    if len(two) > 1:
        rows = [r for r in pl.rows if r[5] == "melting_temperature" and r[2] in two[:2]]
        change(", ".join(two[:2]), "melting_temperature", rows, rows, "")
    # unknown names are not accepted silently
    for comp, par in (("no_such_component", "response_factor"), (pl.rows[0][2], "no_such_parameter")):
        s0 = b.snap()
        before = {r[0]: w.st.s.get(r[0]) for r in pl.rows}
        r = w.m(w.settings, "SetParameterValue", V.string(comp), V.string(par), nat(("name", "value")))
        ok = bool(w.escaped()) or r == FALSE
        ctx.check(ok if ok or r == TRUE else None, "unknown", "%s %s:%s" % (name, comp, par), where, "%s: setting %s of %s is accepted" % (name, par, comp))
        b.back(s0)


def is_splitter(pl, row):
    return row[0] in pl.splitters


def bricks_of(pl):
    b, w, out = pl.b, pl.w, []
    for pth, o in b.walk(w.settings, owned=True):
        if w.exact.get(o, "").rsplit("::", 1)[-1] == "BrickSettings":
            ch = pl.chain(pth)
            out.append((ch[0][1], pl.word(o, "name"), pl.word(o, "type")))
    return out


def all_of_type(pl, ty):
    return [(v, n) for v, n, t in bricks_of(pl) if t == ty]


def run(ctx):
    ctx.rule("updated", "after the update everything the model holds or refers to is what a model built with the new values has")
    ctx.rule("named", "setting a parameter of a component changes that parameter of that component in every structure variant, and no other")
    ctx.rule("unknown", "unknown components and parameters are refused")
    for n in ("socont", "hbv", "gr4j", "outlets"):
        for flip in ((False, True) if n in ("socont", "outlets") else (False,)):
            ctx.each("updated", n, refresh, ctx, n, flip)
        ctx.each("named", n, setter, ctx, n)
