"""C28: the definitions of the Python package agree with the core.

The syntax trees of the package's modules (and the bindings) are compared with the core's registry:
  kind      every process, splitter and solver name written in the package exists in the core
  spec      every parameter specification is a parameter of its kind in the core, and every parameter of a core process has one
  passed    a kind that the package lets through without parameters has none in the core
  values    default values and ranges are consistent, and a default given by both is the same
  alias     parameters that models rename or transform exist
  brick     brick kinds and brick parameters of the models' structures exist in the core
  binding   what the package calls on the extension module is bound to the core's method of that name"""
import ast, builtins, os, re
from .. import vals as V
from ..vals import mk
from ..scene import Registry
from ..model import World
from ..ir import fn_nodes, walk, Broken
from .. import procs
from .c27 import free, call, literals, odd
from ..core import ROOT

ASSUMPTIONS = ["Names that are put together at run time (f-strings) are compared by their fixed parts.",
               "The bindings are read as text: they are not compiled here."]
PKG = "python/src/hydrobricks"


def sources(repo):
    out = {}
    base = os.path.join(repo, PKG)
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                with open(p, encoding="utf-8") as h:
                    out[os.path.relpath(p, repo)] = ast.parse(h.read(), p)
    return out


class Unknown(Exception):
    pass


class Module:
    """constants of a module, by evaluating the syntax of their definitions"""

    def __init__(self, path, tree):
        self.path, self.tree = path, tree
        self.defs, self.funcs, self.classes, self.later, self.line = {}, {}, {}, [], {}
        for s in tree.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                t = s.targets[0]
                if isinstance(t, ast.Name):
                    self.defs[t.id] = s.value
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    self.later.append((t.value.id, "set", t.slice, s.value))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.defs[s.target.id] = s.value
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) \
                    and s.value.func.attr in ("update", "append", "extend", "add"):
                self.later.append((s.value.func.value.id, s.value.func.attr, None, s.value.args[0] if s.value.args else None))
            elif isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
        self.memo = {}

    def const(self, name):
        if name not in self.memo:
            if name not in self.defs:
                raise Unknown(name)
            v = self.memo[name] = self.ev(self.defs[name], {})
            for n, how, key, val in self.later:
                if n == name:
                    val = self.ev(val, {})
                    if how == "set":
                        v[self.ev(key, {})] = val
                    else:
                        getattr(v, how)(val)
        return self.memo[name]

    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return env[e.id] if e.id in env else self.const(e.id)
        if isinstance(e, ast.List):
            out = []
            for x in e.elts:
                out.extend(self.ev(x.value, env)) if isinstance(x, ast.Starred) else out.append(self.ev(x, env))
            return out
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(ast.List(e.elts), env))
        if isinstance(e, ast.Set):
            return set(self.ev(ast.List(e.elts), env))
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    out.update(self.ev(v, env))
                else:
                    out[self.ev(k, env)] = self.ev(v, env)
            return out
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env)
            return -v if isinstance(e.op, ast.USub) else (not v) if isinstance(e.op, ast.Not) else v
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            ops = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: a ** b, ast.BitOr: lambda: a | b}
            if type(e.op) in ops:
                return ops[type(e.op)]()
        if isinstance(e, ast.JoinedStr):
            out = ""
            for x in e.values:
                out += str(self.ev(x.value if isinstance(x, ast.FormattedValue) else x, env))
            return out
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in self.classes:
            for s in self.classes[e.value.id].body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.attr for t in s.targets):
                    return self.ev(s.value, env)
        if isinstance(e, ast.Subscript):
            return self.ev(e.value, env)[self.ev(e.slice, env)]
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            out = []

            def go(i, env):
                if i == len(e.generators):
                    out.append((self.ev(e.key, env), self.ev(e.value, env)) if isinstance(e, ast.DictComp) else self.ev(e.elt, env))
                    return
                g = e.generators[i]
                for x in self.ev(g.iter, env):
                    en = dict(env)
                    if isinstance(g.target, ast.Name):
                        en[g.target.id] = x
                    else:
                        for t, y in zip(g.target.elts, x):
                            en[t.id] = y
                    if all(self.ev(c, en) for c in g.ifs):
                        go(i + 1, en)
            go(0, env)
            return dict(out) if isinstance(e, ast.DictComp) else set(out) if isinstance(e, ast.SetComp) else out
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, env), self.ev(e.comparators[0], env)
            o = e.ops[0]
            if isinstance(o, ast.In): return a in b
            if isinstance(o, ast.NotIn): return a not in b
            if isinstance(o, ast.Eq): return a == b
            if isinstance(o, ast.NotEq): return a != b
        if isinstance(e, ast.Call):
            args = self.ev(ast.List(e.args), env)
            kw = {}
            for k in e.keywords:
                if k.arg is None:
                    kw.update(self.ev(k.value, env))
                else:
                    kw[k.arg] = self.ev(k.value, env)
            f = e.func
            if isinstance(f, ast.Name):
                if f.id in ("dict", "list", "set", "frozenset", "tuple", "float", "int", "sorted"):
                    return getattr(builtins, f.id)(*args, **kw)
                if f.id in self.classes:
                    return self.make(self.classes[f.id], args, kw)
                if f.id in self.funcs:
                    return self.apply(self.funcs[f.id], args, kw)
            if isinstance(f, ast.Attribute) and f.attr in ("items", "keys", "values", "copy", "union"):
                return getattr(self.ev(f.value, env), f.attr)(*args)
            if isinstance(f, ast.Name) and f.id == "replace" or isinstance(f, ast.Attribute) and f.attr == "replace" and args and isinstance(args[0], dict):
                return dict(args[0], **kw)
        raise Unknown(ast.dump(e)[:80])

    def make(self, c, args, kw):
        """a data class as a dictionary"""
        fields, out = [], {"line": None}
        for s in c.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                fields.append(s.target.id)
                if s.value is not None:
                    out[s.target.id] = self.ev(s.value, {})
        out.update(zip(fields, args))
        out.update(kw)
        return out

    def apply(self, f, args, kw):
        env = {}
        ps = [a.arg for a in f.args.args]
        for a, d in zip(reversed(f.args.args), reversed(f.args.defaults)):
            env[a.arg] = self.ev(d, {})
        for a, d in zip(f.args.kwonlyargs, f.args.kw_defaults):
            if d is not None:
                env[a.arg] = self.ev(d, {})
        env.update(zip(ps, args))
        for k, v in kw.items():
            if k in ps or any(a.arg == k for a in f.args.kwonlyargs):
                env[k] = v
            elif f.args.kwarg:
                env.setdefault(f.args.kwarg.arg, {})[k] = v
        if f.args.kwarg:
            env.setdefault(f.args.kwarg.arg, {})
        for s in f.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = self.ev(s.value, env)
            elif isinstance(s, ast.Return):
                return self.ev(s.value, env)
            else:
                raise Unknown("statement in %s" % f.name)
        return None


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module, ast.AsyncFunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            out.add(id(n.body[0].value))
    return out


def joined(tree):
    return {id(v) for n in ast.walk(tree) if isinstance(n, ast.JoinedStr) for v in n.values}


def strings(tree):
    """(text, line) of the constants that are not documentation"""
    doc = docstrings(tree) | joined(tree)
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in doc:
            yield n.value, n.lineno


class Core:
    def __init__(self, ctx):
        self.reg = Registry(ctx.prog)
        p = ctx.prog
        self.params = {k: procs.registered(ctx, r[1])[0] if r[1] else {} for k, r in self.reg.rows.items()}
        for a, k in self.reg.alias.items():
            self.params[a] = self.params.get(k)
        w = World(ctx)

        def accepted(f, wrap, ok):
            got = set()
            for n in sorted(literals(p, f)):
                v = call(w, f, *wrap(n))
                if v is not None and v != "null" and ok(v):
                    got.add(n)
            return got

        def settings(cls, field):
            def make(n):
                o = w.new(cls)
                w.st.s[mk("loc", "f", o, cls + "::" + field)] = V.string(n)
                return (o,)
            return make
        self.solvers = accepted(free(ctx, "Solver::Factory"), settings("SolverSettings", "name"), lambda v: v.k != "null")
        self.bricks = accepted(free(ctx, "BrickTypeFromString"), lambda n: (V.string(n),), lambda v: not (v.k == "enum" and v.a[0].endswith("Unknown")))
        self.variables = {}
        f = free(ctx, "TimeSeries::MatchVariableType")
        for n in sorted(literals(p, f)):
            v = call(w, f, V.string(n))
            if v is not None and v != "null" and v.k == "enum":
                self.variables[n] = v.a[0].rsplit("::", 1)[-1]
        f = next(f for f in p.by_name.get("Splitter::Factory", []) if any("SplitterSettings" in (x.get("ty") or "") for x in f.get("params", [])) or "SplitterSettings" in f["id"])
        lits = set().union(*(literals(p, g) for g in p.fn.values() if g.get("body") and g["file"] == f["file"]))
        allp = set().union(set(), *(self.read(p, n) for n in p.by_name if n.startswith("Splitter") and n.endswith("::SetParameters")))
        self.splitters = {}
        for n in sorted(lits):
            w = World(ctx)
            w.s("AddHydroUnitSplitter", "other", n)
            for x in sorted(allp):
                w.s("AddSplitterParameter", x, 1.0)
            v = call(w, f, w.s("GetHydroUnitSplitterSettings", 0))
            if v is not None and v != "null" and v.k != "null":
                self.splitters[n] = w.exact.get(v)
        self.splitter_params = {}
        for n, c in self.splitters.items():
            self.splitter_params[n] = self.read(p, (c or "?") + "::SetParameters")
        self.brick_params = set()
        for fs in p.by_name.values():
            for f in fs:
                if f.get("body") and "BrickSettings" in f["id"]:
                    self.brick_params |= self.lookups(f)
        sm = [f for f in p.fn.values() if f["n"].startswith("SettingsModel::") and f.get("body")]
        self.names = set().union(*(literals(p, f) for f in sm))

    @staticmethod
    def lookups(f):
        out = set()
        for x in fn_nodes(f):
            if x.get("k") == "call" and "Parameter" in x.get("n", ""):
                out |= {a["v"] for a in x.get("args", []) if a.get("k") == "str"} | {y["v"] for a in x.get("args", []) for y in walk(a) if y.get("k") == "str"}
        return out

    def read(self, p, name):
        return set().union(set(), *(self.lookups(f) for f in p.by_name.get(name, []) if f.get("body")))


def processes_of(tree):
    """(brick name or None, brick dictionary) of the structures written in a module"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.value, ast.Dict):
            keys = {k.value for k in n.value.keys if isinstance(k, ast.Constant)}
            if "kind" in keys and "attach_to" in keys:
                yield n.targets[0].slice, n.value
        elif isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if k is not None and isinstance(v, ast.Dict):
                    keys = {x.value for x in v.keys if isinstance(x, ast.Constant)}
                    if "kind" in keys and "attach_to" in keys:
                        yield k, v


def assigned(tree, name):
    """the texts that a variable is given, None if others than constants"""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            vs = [n.value]
            while vs:
                v = vs.pop()
                if isinstance(v, ast.IfExp):
                    vs += [v.body, v.orelse]
                elif isinstance(v, ast.Constant) and isinstance(v.value, str):
                    out.add(v.value)
                else:
                    return None
    return out or None


def item(d, name):
    for k, v in zip(d.keys, d.values):
        if isinstance(k, ast.Constant) and k.value == name:
            return v
    return None


def snake(s):
    return re.sub(r"(?<=[a-z0-9])(?=[A-Z])|(?<=[A-Z])(?=[A-Z][a-z])", "_", s).lower()


def binding(repo):
    """class (None for the module) -> name -> (method, number of arguments, required, offset)"""
    p = os.path.join(repo, "core/bindings/Binding.cpp")
    with open(p, encoding="utf-8") as h:
        t = h.read()
    t = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), t, flags=re.S)
    t = re.sub(r"(?m)(?<![:\"])//[^\n\"]*$", lambda m: " " * len(m.group(0)), t)
    out, cls, anm = {None: {}}, None, {}
    for m in re.finditer(r"py::(?:class_|enum_)<\s*([\w:]+)[^>]*>\s*\(\s*m\s*,\s*\"(\w+)\"|(m)?\s*\.def(_static|_property|_property_readonly|_readwrite|_readonly)?\s*\(\s*(\"(\w+)\"|py::init)", t):
        if m.group(2):
            cls = m.group(2)
            out.setdefault(cls, {})["<class>"] = (m.group(1), None, None, t[:m.start()].count("\n") + 1)
            continue
        if not m.group(6):
            continue
        i = m.end()
        depth, j, s = 1, i, False
        while j < len(t) and depth:
            c = t[j]
            if s:
                if c == "\\":
                    j += 1
                elif c == '"':
                    s = False
            elif c == '"':
                s = True
            elif c in "([{":
                depth += 1
            elif c in ")]}":
                depth -= 1
            j += 1
        body = t[i:j - 1]
        mm = re.search(r"&\s*((?:\w+::)?\w+)", body) if not re.match(r"\s*,\s*\[", body) else None
        args = re.findall(r"\"(\w+)\"_a\s*(=?)", body)
        anm[(None if m.group(3) else cls, m.group(6))] = [a[0] for a in args]
        out.setdefault(None if m.group(3) else cls, {})[m.group(6)] = (mm.group(1) if mm else None, len(args), len([a for a in args if not a[1]]), t[:m.start()].count("\n") + 1)
    return out, t, anm


def run(ctx):
    ctx.rule("kind", "process, splitter and solver names of the package exist in the core")
    ctx.rule("spec", "parameter specifications and parameters of the core's processes correspond")
    ctx.rule("passed", "kinds let through without parameters have none")
    ctx.rule("values", "defaults and ranges are consistent")
    ctx.rule("alias", "renamed and transformed parameters exist")
    ctx.rule("brick", "brick kinds, parameters and components exist in the core")
    ctx.rule("binding", "calls of the extension module reach the method of that name")
    repo = os.environ.get("HB_REPO", "/repo")
    core = Core(ctx)
    try:
        src = sources(repo)
    except SyntaxError as e:
        raise Broken("the package cannot be parsed: %s" % e)
    pp = PKG + "/parameters.py"
    if pp not in src:
        raise Broken("parameters.py not found")
    mod = Module(pp, src[pp])
    kinds = set(core.params)
    try:
        specs = mod.const("PROCESS_PARAM_SPECS")
        bspecs = mod.const("BRICK_PARAM_SPECS")
    except (Unknown, KeyError, TypeError, ValueError, AttributeError, RecursionError) as e:
        ctx.und("spec", pp, "the specifications cannot be told: %s" % e)
        specs, bspecs = None, None
    passed = set()
    for n in ast.walk(src[pp]):
        if isinstance(n, ast.FunctionDef) and n.name == "_generate_process_parameters":
            passed |= {s for s, _ in strings(n)} & kinds
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id in mod.defs and x.id != "PROCESS_PARAM_SPECS":
                    try:
                        v = mod.const(x.id)
                        passed |= set(v) & kinds
                    except (Unknown, KeyError, TypeError, ValueError, AttributeError, RecursionError):
                        ctx.und("passed", pp, x.id)
    if specs is not None:
        specification(ctx, core, specs, bspecs, passed, pp, mod)
    names(ctx, core, src)
    structure(ctx, core, src, specs, bspecs, passed)
    aliases(ctx, core, src, specs)
    components(ctx, core, src)
    bindings(ctx, core, src, repo)


def line_of(mod, text):
    return next((n.lineno for n in ast.walk(mod.tree) if isinstance(n, ast.Constant) and n.value == text), 1)


def specification(ctx, core, specs, bspecs, passed, pp, mod):
    for kind, lst in sorted(specs.items()):
        where = "%s:%d (PROCESS_PARAM_SPECS)" % (pp, line_of(mod, kind))
        if kind.startswith("transition:"):
            have, what = core.splitter_params.get(kind[11:]), "splitter %s" % kind[11:]
        elif kind.startswith("correction:"):
            k = [p for n, p in core.splitter_params.items() if n == kind[11:] or n.startswith(kind[11:] + ":")]
            have, what = set.intersection(*k) if k else None, "splitter %s" % kind[11:]
        else:
            have, what = core.params.get(kind), "process %s" % kind
        ctx.check(have is not None, "kind", "specification of %s" % kind, where, "the core has no %s, for which parameters are specified" % what)
        if have is None:
            continue
        known = set(have)
        for s in lst:
            n = s.get("name")
            ctx.check(n in known, "spec", "%s of %s" % (n, what), where, "parameter %s of %s is not known to the core (%s)" % (n, what, ", ".join(sorted(known)) or "none"))
            lo, hi, d = s.get("min"), s.get("max"), s.get("default")
            num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)
            key = "range of %s of %s" % (n, what)
            if num(lo) and num(hi):
                ctx.check(lo <= hi, "values", key, where, "%s: the minimum %s is above the maximum %s" % (n, lo, hi))
            if num(d):
                ctx.check((not num(lo) or lo <= d) and (not num(hi) or d <= hi), "values", "default of %s of %s" % (n, what), where, "%s: the default %s is outside %s to %s" % (n, d, lo, hi))
            c = have.get(n) if isinstance(have, dict) else None
            if num(d) and c is not None and c.k == "num" and V.p_isconst(c.a[0]):
                cv = float(V.p_constval(c.a[0]))
                ctx.check(abs(cv - d) <= 1e-6 * max(abs(d), abs(cv)), "values", "default of %s of %s in the core" % (n, what), where, "%s: the default is %s, and %s in the core" % (n, d, cv))
        got = [s.get("name") for s in lst]
        ctx.check(len(got) == len(set(got)), "spec", "names of %s" % what, where, "a parameter of %s is specified twice" % what)
        if not kind.startswith(("correction:", "transition:")):
            for p in sorted(known):
                ctx.check(p in got, "spec", "%s of %s settable" % (p, what), where, "parameter %s of %s cannot be set from Python: it has no specification" % (p, what))
        elif kind.startswith("transition:"):
            corr = {s.get("name") for k, l in specs.items() if k.startswith("correction:") and kind[11:].startswith(k[11:]) for s in l}
            for p in sorted(known):
                ctx.check(p in got or p in corr, "spec", "%s of %s settable" % (p, what), where, "parameter %s of %s cannot be set from Python: it has no specification" % (p, what))
    where = pp + " (PROCESS_PARAM_SPECS)"
    for kind in sorted(core.reg.rows):
        if kind in specs:
            continue
        alias = [a for a, k in core.reg.alias.items() if k == kind and a in specs]
        have = core.params[kind]
        generated = kind in core.names and set(have or ()) <= set(bspecs)      # made by the core, set by the brick's parameter of that name
        ctx.check(not have or bool(alias) or generated, "spec", "process %s" % kind, where, "process %s has parameters (%s) in the core, and no specification" % (kind, ", ".join(sorted(have))))
    where = pp + " (_generate_process_parameters)"
    for kind in sorted(passed):
        have = core.params.get(kind)
        ctx.check(not have or kind.startswith("melt:"), "passed", "process %s" % kind, where, "process %s is let through without parameters, but has some in the core: %s" % (kind, ", ".join(sorted(have or ()))))
    for n, s in sorted(bspecs.items()):
        ctx.check(s.get("name") == n and n in core.brick_params, "brick", "brick parameter %s" % n, pp + " (BRICK_PARAM_SPECS)", "brick parameter %s (%s) is not read by the core" % (n, s.get("name")))


def names(ctx, core, src):
    kinds = set(core.params) | set(core.splitters)
    prefixes = {k.split(":")[0] for k in kinds if ":" in k} - {"type"}
    pseudo = {"transition:" + s for s in core.splitters} | {"correction:" + s for s in core.splitters} | {"correction:" + s.split(":")[0] for s in core.splitters}
    for path, tree in sorted(src.items()):
        if not any(x in path for x in ("/models/", "/modules/", "/parameters.py")):
            continue
        for s, line in strings(tree):
            if not re.fullmatch(r"[a-z_0-9]+(:[a-z_0-9]+)+", s):
                continue
            if s.split(":")[0] in prefixes | {"transition", "correction"}:
                ctx.check(s in kinds or s in pseudo, "kind", "name %s" % s, "%s:%d" % (path, line), "\"%s\" is no process or splitter of the core" % s)
    for path, tree in sorted(src.items()):
        for n in ast.walk(tree):
            found = []
            if isinstance(n, ast.FunctionDef):
                a = n.args
                for x, d in list(zip(reversed(a.args), reversed(a.defaults))) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                    if x.arg == "solver" and isinstance(d, ast.Constant) and isinstance(d.value, str):
                        found.append((d.value, d.lineno))
                if any(x.arg == "solver" for x in a.args + a.kwonlyargs) and "/model_settings" in path:
                    found += [(s, n.lineno) for s in re.findall(r"``\"(\w+)\"``", ast.get_docstring(n) or "")]
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr == "set_solver" and n.args and isinstance(n.args[0], ast.Constant):
                    found.append((n.args[0].value, n.lineno))
                found += [(k.value.value, n.lineno) for k in n.keywords if k.arg == "solver" and isinstance(k.value, ast.Constant) and isinstance(k.value.value, str)]
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if isinstance(n.value, ast.Constant) and isinstance(n.value.value, str) and any((isinstance(t, ast.Attribute) and t.attr == "solver") or (isinstance(t, ast.Name) and t.id == "solver")
                                                                                             or (isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == "solver") for t in ts):
                    found.append((n.value.value, n.lineno))
            for s, line in found:
                ctx.check(s in core.solvers, "kind", "solver %s" % s, "%s:%d" % (path, line), "solver \"%s\" is not known to the core" % s)


def structure(ctx, core, src, specs, bspecs, passed):
    for path, tree in sorted(src.items()):
        if "/models/" not in path and "/modules/" not in path:
            continue
        for key, d in processes_of(tree):
            name = key.value if isinstance(key, ast.Constant) else "?"
            where = "%s:%d" % (path, d.lineno)
            k = item(d, "kind")
            if isinstance(k, ast.Constant):
                ctx.check(k.value == "land_cover" or k.value in core.bricks, "brick", "kind of %s in %s" % (name, path), where, "brick kind \"%s\" is not known to the core" % k.value)
            a = item(d, "attach_to")
            if isinstance(a, ast.Constant):
                ctx.check(a.value in ("hydro_unit", "sub_basin"), "brick", "place of %s in %s" % (name, path), where, "brick %s is attached to \"%s\"" % (name, a.value))
            ps = item(d, "parameters")
            for x in ps.keys if isinstance(ps, ast.Dict) else ():
                if isinstance(x, ast.Constant):
                    ctx.check(x.value in core.brick_params, "brick", "parameter %s of %s in %s" % (x.value, name, path), where, "brick parameter \"%s\" is not read by the core" % x.value)
        for x in ast.walk(tree):
            if isinstance(x, ast.Dict) and item(x, "attach_to") is None and (item(x, "target") is not None or item(x, "targets") is not None or len(x.keys) == 1):
                pk, where, name = item(x, "kind"), "%s:%d" % (path, x.lineno), "a brick"
                if isinstance(pk, ast.Constant):
                    ctx.check(pk.value in core.params, "kind", "process %s of %s in %s" % (pk.value, name, path), where, "process kind \"%s\" is not known to the core" % pk.value)
                    if specs is not None:
                        ctx.check(pk.value in specs or pk.value in passed, "passed", "%s of %s in %s" % (pk.value, name, path), where, "process kind \"%s\" has neither a specification nor passes without" % pk.value)


def aliases(ctx, core, src, specs):
    allp = set(core.brick_params)
    for p in core.params.values():
        allp |= set(p or ())
    for p in core.splitter_params.values():
        allp |= p
    bricks = {}
    open_ = set()
    for path, tree in src.items():
        if "/models/" not in path and "/modules/" not in path:
            continue
        for key, d in processes_of(tree):
            if not isinstance(key, ast.Constant):
                continue
            b = bricks.setdefault(key.value, set())
            ps, pr = item(d, "parameters"), item(d, "processes")
            b |= {x.value for x in ps.keys if isinstance(x, ast.Constant)} if isinstance(ps, ast.Dict) else set()
            for x in pr.values if isinstance(pr, ast.Dict) else ():
                pk = item(x, "kind") if isinstance(x, ast.Dict) else None
                vs = {pk.value} if isinstance(pk, ast.Constant) else assigned(tree, pk.id) if isinstance(pk, ast.Name) else None
                if vs is None:
                    open_.add(key.value)
                for v in vs or ():
                    b |= set(core.params.get(v) or ())
        for n in ast.walk(tree):
            # self.structure["x"]["processes"]["y"]... = ...
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript):
                t, keys = n.targets[0], []
                while isinstance(t, ast.Subscript):
                    keys.append(t.slice)
                    t = t.value
                if len(keys) > 1 and isinstance(keys[-1], ast.Constant):
                    got = {s for s, _ in strings(n.value)} if n.value else set()
                    b = bricks.setdefault(keys[-1].value, set())
                    if len(keys) == 2 and not isinstance(n.value, ast.Dict) or not got and not isinstance(n.value, ast.Constant):
                        open_.add(keys[-1].value)
                    b |= {k.value for k in keys if isinstance(k, ast.Constant)} & allp
                    for v in got:
                        b |= set(core.params.get(v) or ()) | ({v} & allp)
    for path, tree in sorted(src.items()):
        if "/models/" not in path and "/modules/" not in path:
            continue
        for f in ast.walk(tree):
            if not (isinstance(f, ast.FunctionDef) and ("alias" in f.name or "transform" in f.name or "constraint" in f.name or "bound" in f.name or "range" in f.name)):
                continue
            doc = docstrings(f)
            for n in ast.walk(f):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in doc and id(n) not in joined(f):
                    s = n.value
                elif isinstance(n, ast.JoinedStr) and n.values and isinstance(n.values[-1], ast.Constant) and isinstance(n.values[0], ast.FormattedValue):
                    s = "?" + n.values[-1].value
                else:
                    continue
                m = re.fullmatch(r"(type:\w+|\w+|\?\w*):(\w+)", s)
                if not m:
                    continue
                comp, par = m.groups()
                where = "%s:%d (%s)" % (path, n.lineno, f.name)
                if s in core.params:
                    continue
                ctx.check(par in allp, "alias", "parameter %s" % s, where, "\"%s\" is no parameter of the core" % par)
                if par not in allp:
                    continue
                if comp.startswith("type:"):
                    ctx.check(comp[5:] in core.bricks, "alias", "component %s" % s, where, "\"%s\" is no brick type of the core" % comp[5:])
                elif comp in bricks and comp not in open_:
                    ctx.check(par in bricks[comp], "alias", "component %s" % s, where, "brick %s of the models has no parameter \"%s\" (%s)" % (comp, par, ", ".join(sorted(bricks[comp]))))


def components(ctx, core, src):
    """the components whose parameters the package sets exist in the structures that the core generates"""
    path = PKG + "/parameters.py"
    tree = src[path]
    fixed = joined(tree)
    for n in ast.walk(tree):
        if not isinstance(n, ast.Call):
            continue
        for k in n.keywords:
            if k.arg != "component":
                continue
            where = "%s:%d" % (path, n.lineno)
            if isinstance(k.value, ast.Constant) and isinstance(k.value.value, str):
                for c in k.value.value.split(","):
                    c = c.strip()
                    ok = c[5:] in core.bricks if c.startswith("type:") else c in core.names
                    ctx.check(ok, "brick", "component %s" % c, where, "the core generates no component \"%s\"" % c)
            elif isinstance(k.value, ast.JoinedStr):
                for v in k.value.values:
                    if isinstance(v, ast.Constant) and isinstance(v.value, str):
                        ctx.check(v.value in core.names, "brick", "component *%s" % v.value, where, "the core generates no component named *%s" % v.value)
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str) and any(isinstance(t, ast.Name) and t.id == "component" for t in n.targets):
            for c in n.value.value.split(","):
                c = c.strip()
                ok = c[5:] in core.bricks if c.startswith("type:") else c in core.names
                ctx.check(ok, "brick", "component %s" % c, "%s:%d" % (path, n.lineno), "the core generates no component \"%s\"" % c)


def bindings(ctx, core, src, repo):
    try:
        bound, text, anm = binding(repo)
    except OSError as e:
        raise Broken(str(e))
    B = "core/bindings/Binding.cpp"
    p = ctx.prog
    for cls, defs in sorted(bound.items(), key=lambda x: str(x[0])):
        cpp = defs.get("<class>", (None,))[0]
        own = {}
        for f in p.fn.values():
            if cpp and f["n"].startswith(cpp + "::"):
                own.setdefault(snake(f["n"].rsplit("::", 1)[-1]), []).append(f)
        for name, (m, nargs, req, line) in sorted(defs.items()):
            if m is None or name == "<class>" or (cls and "::" not in m):
                continue
            anames = anm.get((cls, name), [])
            where = "%s:%d" % (B, line)
            if cls:
                c, meth = m.split("::")
                fs = p.by_name.get(m, [])
                base = bool(fs) or any(x.endswith("::" + meth) for x in p.by_name)
                ctx.check(base, "binding", "%s.%s" % (cls, name), where, "%s.%s is bound to %s, which does not exist" % (cls, name, m))
                same = [f for f in own.get(name, ()) if len(f.get("params", [])) == len(anames)]
                if same:
                    ctx.check(snake(meth).startswith(name) or snake(meth).endswith(name), "binding", "method of %s.%s" % (cls, name), where, "%s.%s is bound to %s and not to %s" % (cls, name, m, same[0]["n"]))
                if fs and nargs:
                    ns = {len(f.get("params", [])) for f in fs}
                    ctx.check(nargs in ns, "binding", "arguments of %s.%s" % (cls, name), where, "%s.%s is bound with %d arguments, %s has %s" % (cls, name, nargs, m, "/".join(map(str, sorted(ns)))))
    methods = {}
    for cls, defs in bound.items():
        for name, d in defs.items():
            methods.setdefault(name, []).append((cls, d))
    for path, tree in sorted(src.items()):
        typed = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and n.module and n.module.endswith("_hydrobricks"):
                for a in n.names:
                    ok = a.name in bound or a.name in bound[None] or a.name.startswith("__")
                    ctx.check(ok, "binding", "import of %s in %s" % (a.name, path), "%s:%d" % (path, n.lineno), "the extension module has no %s" % a.name)
                    if a.name in bound:
                        typed[a.asname or a.name] = a.name
        # attributes that hold an object of the extension module
        for c in ast.walk(tree):
            if not isinstance(c, ast.ClassDef):
                continue
            held = {}
            for n in ast.walk(c):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in typed:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            held[t.attr] = typed[n.value.func.id]
            for n in ast.walk(c):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and isinstance(n.func.value.value, ast.Name) \
                        and n.func.value.value.id == "self" and n.func.value.attr in held:
                    cls, name = held[n.func.value.attr], n.func.attr
                    where = "%s:%d" % (path, n.lineno)
                    d = bound[cls].get(name)
                    ctx.check(d is not None, "binding", "call of %s.%s" % (cls, name), where, "%s.%s is called, which is not bound" % (cls, name))
                    if d and d[1] and not any(isinstance(a, ast.Starred) for a in n.args) and not any(k.arg is None for k in n.keywords):
                        cnt = len(n.args) + len(n.keywords)
                        ctx.check(d[2] <= cnt <= d[1], "binding", "arguments in the call of %s.%s" % (cls, name), where, "%s.%s is called with %d arguments, and takes %d to %d" % (cls, name, cnt, d[2], d[1]))
    # the forcing names given out are those taken in
    seen = set()
    for m in re.finditer(r"case\s+VariableType::(\w+)\s*:\s*(?:\{\s*)?return\s*(?:std::string\s*\(\s*)?\"(\w+)\"", text):
        t, n = m.groups()
        seen.add(t)
        ctx.check(core.variables.get(n) == t, "binding", "name of forcing %s" % t, "%s:%d" % (B, text[:m.start()].count("\n") + 1), "%s is called \"%s\", which stands for %s" % (t, n, core.variables.get(n)))
