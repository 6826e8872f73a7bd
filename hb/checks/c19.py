"""C19: running, resetting and dumping models touches no state shared between them.

Every variable of static storage (namespace scope, static members, function-local statics,
thread-local ones) of the current sources is listed, and every function that a model's public
operations can reach over the call graph is looked at for uses of one that can change:
  storage     a variable that is written, or handed out to be written, is used by no function
              reachable from running, resetting, saving, dumping or reading a model, except for
              the message log
  first-use   no constant of static storage takes its value from the first model that gets there
  log         the state of the message log is only touched holding its mutex (whichever function
              of the call chain takes it), or is atomic
  library     no library function that works on state of the process is reached
  released    what runs with the interpreter lock released reaches no netCDF function (that
              library is not thread safe) and no Python object"""
import os, re
from ..ir import walk, calls, strip_cast, strip_ty, children, fn_nodes, Broken
from ..effects import MUTATORS, STD_MUT_FREE

ASSUMPTIONS = ["Two models share no object the user gave to both (settings, time series).",
               "Virtual calls may reach every overrider of the static type.",
               "The bindings are read as text."]

PROCESS_WIDE = {"strtok", "localtime", "gmtime", "asctime", "ctime", "setlocale", "setenv", "putenv", "unsetenv", "rand",
                "srand", "drand48", "lrand48", "random", "srandom", "chdir", "tmpnam", "strerror", "umask", "tzset",
                "fesetround", "feenableexcept", "signal", "std::locale::global", "readdir"}
LOCKS = ("std::lock_guard<", "std::unique_lock<", "std::scoped_lock<", "std::shared_lock<")
SYNC = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::once_flag", "std::atomic", "std::timed_mutex", "std::condition_variable")
FULL = {"clear", "assign", "setZero", "setConstant", "fill", "str"}


def roots(prog):
    """the operations on a model that may run beside those on another"""
    out = []
    for q in ("Run", "Reset", "SaveAsInitialState", "DumpOutputs", "UpdateParameters", "IsValid", "Validate", "ForcingLoaded"):
        fs = [f["id"] for f in prog.find("ModelHydro::" + q) if f.get("body")]
        out += fs
        if q in ("Run", "Reset", "DumpOutputs") and not fs:
            raise Broken("ModelHydro::%s not found" % q)
    for n, fs in prog.by_name.items():
        if n.startswith("ModelHydro::Get"):
            out += [f["id"] for f in fs if f.get("body")]
    return out


def pointee_const(ty):
    """nothing can be changed through a constant of this type"""
    t = ty or ""
    return not t.rstrip().endswith("*") and not t.startswith(("std::unique_ptr", "std::shared_ptr")) or t.startswith("const ") or "const *" in t or "<const " in t


class Statics:
    def __init__(self, ctx):
        p = self.p = ctx.prog
        self.vars = {}     # id -> dict(name, ty, const, tls, fid or None, file, l, init)
        for n, g in p.globals.items():
            self.vars[n] = dict(name=g["q"], ty=g["ty"], const=g["const"], tls=g["tls"], fid=None, file=g["file"], l=g["l"], init=g.get("init"))
        for fid, f in p.fn.items():
            for x in fn_nodes(f):
                if x.get("k") == "decl":
                    for v in x["vars"]:
                        if v.get("static") or v.get("tls"):
                            self.vars[fid + "::" + v["n"]] = dict(name="%s::%s" % (f["n"], v["n"]), ty=v["ty"], const=v.get("const"), tls=bool(v.get("tls")),
                                                                  fid=fid, file=f["file"], l=v["l"], init=v.get("init"), vid=v["id"])
        self.byname = {v["name"]: k for k, v in self.vars.items() if not v["fid"]}
        self.used, self.written = {}, {}
        for fid, f in p.fn.items():
            self.scan(fid, f)

    def key(self, x, fid):
        if x.get("dk") == "global":
            for k in (x["id"], self.p.fn[fid]["file"] + "::" + x["id"]):
                if k in self.vars:
                    return k
            return self.byname.get(x["id"])
        if x.get("dk") == "slocal":
            k = fid + "::" + x["n"]
            return k if k in self.vars else None
        return None

    def root(self, e, fid, alias):
        """the variable of static storage an lvalue lies in"""
        while True:
            e = strip_cast(e)
            if not isinstance(e, dict):
                return None
            k = e.get("k")
            if k == "ref":
                a = alias.get(e.get("id"))
                return self.key(e, fid) or a
            if k == "idx" or k == "mem":
                e = e["b"]
            elif k == "un" and e["op"] in ("*", "&"):
                e = e["e"]
            elif k == "call" and e.get("recv") is not None:
                e = e["recv"]
            elif k == "call" and e.get("fn") in self.handing:
                return self.handing[e["fn"]]
            else:
                return None

    @property
    def handing(self):
        if not hasattr(self, "_h"):
            self._h = {}
            for fid, f in self.p.fn.items():
                rt = f.get("ret") or ""
                if not (rt.rstrip().endswith(("&", "*"))) or rt.startswith("const "):
                    continue
                for x in fn_nodes(f):
                    if x.get("k") == "return" and isinstance(x.get("e"), dict):
                        e = strip_cast(x["e"])
                        while isinstance(e, dict) and e.get("k") in ("idx", "mem", "un"):
                            e = strip_cast(e.get("b") or e.get("e"))
                        if isinstance(e, dict) and e.get("k") == "ref":
                            k = self.key(e, fid)
                            if k:
                                self._h[fid] = k
        return self._h

    def scan(self, fid, f):
        nodes = list(fn_nodes(f))
        alias = {}
        for x in nodes:
            vs = x["vars"] if x.get("k") == "decl" else [x["v"]] if x.get("k") == "rfor" else []
            for v in vs:
                ini = v.get("init") if x["k"] == "decl" else x["range"]
                if isinstance(ini, dict) and (v.get("ref") or v["ty"].rstrip().endswith("*") or "iterator" in v["ty"]):
                    k = self.root(ini, fid, alias)
                    if k and not (v.get("const") and v.get("ref")):
                        alias[v["id"]] = k
                    if k:
                        self.use(k, fid, x.get("l"))

        def write(e, l):
            k = self.root(e, fid, alias)
            if k:
                self.written.setdefault(k, []).append((fid, l))
        for x in nodes:
            k = x.get("k")
            if k == "ref":
                q = self.key(x, fid) or alias.get(x.get("id"))
                if q:
                    self.use(q, fid, x.get("l"))
            elif k == "asg":
                write(x["a"], x.get("l"))
            elif k == "un" and x["op"] in ("++", "--", "p++", "p--"):
                write(x["e"], x.get("l"))
            elif k in ("call", "ctor"):
                tg = [t for t in self.p.targets(x) if t in self.p.fn]
                if x.get("fn") in self.handing:
                    self.use(self.handing[x["fn"]], fid, x.get("l"))
                rc = x.get("recv")
                short = x.get("n", "").rsplit("::", 1)[-1]
                if rc is not None:
                    if tg:
                        if not x.get("const"):
                            write(rc, x.get("l"))
                    elif short in MUTATORS or x.get("op") in ("=", "+=", "-=", "*=", "/=", "<<", ">>", "++", "--") or \
                            (x.get("op") == "[]" and "map<" in strip_ty(x.get("rty") or "")):
                        write(rc, x.get("l"))
                elif not tg and (x.get("n") in STD_MUT_FREE or x.get("op") in ("=", "+=", "-=", "<<", ">>")):
                    for a in x.get("args", [])[:3 if x.get("n") in ("std::copy", "std::transform") else 1]:
                        write(a, x.get("l"))
                for t in tg:
                    if x.get("n", "").startswith("Log") and "::" not in x.get("n", ""):
                        continue
                    for a, pp in zip(x.get("args", []), self.p.fn[t]["params"]):
                        ty = pp.get("ty", "")
                        if ty.endswith(("&", "*")) and not ty.startswith("const"):
                            write(a, x.get("l"))

    def use(self, k, fid, l):
        s = self.used.setdefault(k, {})
        s.setdefault(fid, l)

    def mutable(self, k):
        v = self.vars[k]
        if v["ty"].startswith(SYNC) and not v["ty"].startswith("std::atomic"):
            return False
        if v["const"]:
            return False
        return bool(self.written.get(k)) or k in self.handing.values()


def short_path(ctx, src, dst):
    """a chain of calls from one of src to dst"""
    prev, todo = {s: None for s in src}, list(src)
    while todo:
        x = todo.pop(0)
        if x == dst:
            out = []
            while x:
                out.append(ctx.prog.fn[x]["n"] if x in ctx.prog.fn else x)
                x = prev[x]
            out = out[::-1]
            return " -> ".join(out if len(out) < 8 else out[:3] + ["..."] + out[-3:])
        for y in sorted(ctx.eff.cg.get(x, ())):
            if y not in prev:
                prev[y] = x
                todo.append(y)
    return "?"


def depends(init, f):
    """what of one call or object the initialiser reads"""
    own = set()
    for x in walk(init):
        if x.get("k") == "lambda":
            own |= {q["id"] for q in x.get("params", [])}
        if x.get("k") == "decl":
            own |= {v["id"] for v in x["vars"]}
        if x.get("k") == "rfor":
            own.add(x["v"]["id"])
    for x in walk(init):
        if x.get("k") == "this":
            return "the object"
        if x.get("k") == "ref" and x.get("dk") in ("param", "local") and x["id"] not in own:
            return "'%s'" % x["n"]
        if x.get("k") == "lambda" and any(c == "this" for c in x.get("caps", [])):
            return "the object"
    return None


def storage(ctx, S, rs, reached, log_files):
    for k, v in sorted(S.vars.items()):
        if v["file"].startswith("app/"):
            continue
        where = "core/src/%s:%s (%s)" % (v["file"], v["l"], v["name"])
        users = [u for u in S.used.get(k, {}) if u in reached]
        if v["fid"] in reached and v["fid"] not in users:
            users.append(v["fid"])
        if v["fid"] and v["const"] and isinstance(v["init"], dict):
            d = depends(v["init"], v["fid"])
            if d and v["fid"] in reached:
                ctx.bad("first-use", "first:" + v["name"], where, "%s keeps for all models the value computed from %s of the first one that gets there (%s)" % (
                    v["name"], d, short_path(ctx, rs, v["fid"])))
                continue
            if d:
                ctx.und("first-use", where, "computed from %s, but not while running" % d)
                continue
            ctx.ok("first-use", where)
        if v["const"] and pointee_const(v["ty"]):
            ctx.ok("storage", where, "constant")
            continue
        if v["file"] in log_files:
            continue
        if not S.mutable(k):
            ctx.ok("storage", where, "never written")
            continue
        if not users:
            ctx.und("storage", where, "written, but not by what running, resetting or dumping reaches")
            continue
        u = sorted(users)[0]
        if v["tls"]:
            first = first_use(S, k, v)
            if first is True:
                ctx.und("storage", where, "one per thread, set anew before it is read")
                continue
            if first is None:
                ctx.und("storage", where, "one per thread")
                continue
            ctx.bad("storage", "static:" + v["name"], where, "%s holds, from one model to the next run by the same thread, what the model before left in it (used by %s)" % (v["name"], short_path(ctx, rs, u)))
            continue
        ws = [(f, l) for f, l in S.written.get(k, [])]
        ctx.bad("storage", "static:" + v["name"], where, "%s (%s) is one for all models, is changed (%s) and is used while a model runs, is reset or dumped: %s" % (
            v["name"], v["ty"], ", ".join(sorted({ctx.at(f, l) for f, l in ws})[:2]) or "handed out by reference", short_path(ctx, rs, u)))


def first_use(S, k, v):
    """True: the first thing done with the thread's variable sets all of it; False: it is read or changed in part first"""
    if not v["fid"]:
        return None
    f = S.p.fn[v["fid"]]
    order = list(fn_nodes(f))
    parents = {}
    for x in order:
        for c in children(x):
            parents[id(c)] = x
    for x in order:
        if x.get("k") == "ref" and S.key(x, v["fid"]) == k:
            q = parents.get(id(x))
            while q is not None and q.get("k") in ("cast", "copy"):
                q = parents.get(id(q))
            if q is not None and q.get("k") == "asg" and q.get("op") == "=" and strip_cast(q["a"]) is x:
                return True
            if q is not None and q.get("k") == "call" and isinstance(q.get("recv"), dict) and strip_cast(q["recv"]) is x:
                n = q.get("n", "").rsplit("::", 1)[-1]
                if n in FULL or q.get("op") == "=":
                    return True
                if n in ("resize", "reserve"):
                    continue
                return False
            return False
    return None


# -- the message log
class Log:
    """accesses to the state of the log, and whether its mutex is held there"""
    def __init__(self, ctx, S, files):
        self.ctx, self.p, self.S = ctx, ctx.prog, S
        self.files = files
        self.types = {strip_ty(v["ty"]) for k, v in S.vars.items() if v["file"] in files}
        self.types = {t for t in self.types if t in self.p.cls}
        self.vars = {k for k, v in S.vars.items() if v["file"] in files and not v["const"] and strip_ty(v["ty"]) not in self.types
                     and not v["ty"].startswith(SYNC)}
        self.free = {}     # fid -> [(what, line)] accesses without a lock taken in fid
        self.sites = {}    # function -> [(caller, line, whether a lock is held)]
        self.held = []     # (fid, what, mutexes, line)
        for fid, f in self.p.fn.items():
            self.fid = fid
            self.alias = {}
            if f["n"].rsplit("::", 1)[-1].startswith("~") or f["n"].rsplit("::", 1)[0].rsplit("::", 1)[-1] == f["n"].rsplit("::", 1)[-1] and f["n"].rsplit("::", 1)[0] in self.types:
                continue
            if f.get("body"):
                self.st(f["body"], {})

    def mutex(self, e):
        e = strip_cast(e)
        if isinstance(e, dict) and e.get("k") == "mem":
            return e["f"]
        if isinstance(e, dict) and e.get("k") == "ref":
            k = self.S.key(e, self.fid)
            return k
        if isinstance(e, dict) and e.get("k") == "call" and e.get("fn"):
            return self.S.handing.get(e["fn"])
        return None

    def st(self, s, held):
        """statements in order; held: name of the lock -> mutex"""
        if isinstance(s, list):
            for x in s:
                self.st(x, held)
            return
        if not isinstance(s, dict):
            return
        k = s.get("k")
        if k == "block":
            inner = dict(held)
            for x in s["s"]:
                self.st(x, inner)
            for q in list(held):
                if q not in inner:
                    del held[q]
            return
        if k == "lambda":
            self.st(s["body"], dict(held))
            return
        if k == "decl":
            for v in s["vars"]:
                ini = v.get("init")
                if v["ty"].startswith(LOCKS) and isinstance(ini, dict):
                    args = ini.get("args", [])
                    if any(a.get("n", "").endswith(("defer_lock", "try_to_lock")) or "defer_lock" in str(a.get("ty")) or "try_to_lock" in str(a.get("ty")) for a in args if isinstance(a, dict)):
                        continue
                    for a in args:
                        m = self.mutex(a)
                        if m:
                            held[v["id"]] = m
                elif isinstance(ini, dict):
                    self.st(ini, held)
            return
        if k == "mem":
            t = s["f"].rsplit("::", 1)[0]
            ty = (self.p.field.get(s["f"]) or {}).get("ty", "")
            if t in self.types and not ty.startswith(SYNC) and not ty.startswith("const "):
                self.access(s["f"], s.get("l"), held)
        if k == "ref":
            q = self.S.key(s, self.fid)
            if q in self.vars:
                self.access(self.S.vars[q]["name"], s.get("l"), held)
        if k == "call" and s.get("recv") is not None:
            n = s.get("n", "").rsplit("::", 1)[-1]
            r = strip_cast(s["recv"])
            if n == "unlock" and isinstance(r, dict) and r.get("k") == "ref" and r.get("id") in held:
                del held[r["id"]]
                return
            if n in ("lock", "unlock") and self.mutex(r) and (r.get("ty") or "").startswith(SYNC):
                m = self.mutex(r)
                if n == "lock":
                    held["direct:" + m] = m
                else:
                    held.pop("direct:" + m, None)
                return
        if k in ("call", "ctor"):
            for t in self.p.targets(s):
                if t in self.p.fn:
                    self.sites.setdefault(t, []).append((self.fid, s.get("l"), bool(held)))
        for c in children(s):
            self.st(c, held)

    def access(self, what, line, held):
        if held:
            self.held.append((self.fid, what, frozenset(held.values()), line))
        else:
            self.free.setdefault(self.fid, []).append((what, line))


def log(ctx, S, files):
    L = Log(ctx, S, files)
    if not L.held and not L.free:
        raise Broken("no state of the message log found")
    common = None
    for fid, what, ms, line in L.held:
        common = ms if common is None else common & ms
    for fid, what, ms, line in L.held:
        ctx.check(True if common else False, "log", "log-mutex:" + what, ctx.at(fid, line), "the accesses to the state of the log are not all made under one mutex")
    for fid, acc in sorted(L.free.items()):
        # called with the mutex held by every caller?
        seen, todo, why = set(), [fid], None
        while todo and why is None:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x not in L.sites:
                why = x
            todo += [c for c, l, held in L.sites.get(x, []) if not held]
        for what, line in sorted(set(acc)):
            ctx.check(why is None, "log", "log:%s:%s" % (ctx.prog.fn[fid]["n"], what), ctx.at(fid, line),
                      "%s is used without holding the mutex of the log: while another model logs or the level is changed the two race" % what)


def library(ctx, rs, reached):
    bad = {}
    for fid in sorted(reached):
        for n in ctx.eff.ext.get(fid, ()):
            m = n[5:] if n.startswith("std::") else n
            if m in PROCESS_WIDE or n in PROCESS_WIDE:
                bad.setdefault(n, []).append(fid)
            if n == "std::filesystem::current_path":
                for x in calls(ctx.prog.fn[fid].get("body")):
                    if x.get("n") == n and x.get("args") and "path" in str(x["args"][0].get("ty", "")):
                        bad.setdefault(n, []).append(fid)
    for n, fs in sorted(bad.items()):
        ctx.bad("library", "library:" + n, ctx.at(fs[0]), "%s works on state of the whole process, and is reached while a model runs, is reset or dumped: %s" % (n, short_path(ctx, rs, fs[0])))
    ctx.ok("library", "%d functions reachable from running, resetting, dumping and reading a model" % len(reached))


def released(ctx):
    p = os.path.join(ctx.prog.repo, "core", "bindings", "Binding.cpp")
    if not os.path.exists(p):
        ctx.und("released", p, "no bindings")
        return
    t = re.sub(r"//[^\n]*", "", open(p).read())
    t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    n = 0
    for m in re.finditer(r"gil_scoped_release", t):
        # the definition it belongs to: from the last .def( or m.def( before
        a = max(t.rfind(".def(", 0, m.start()), t.rfind(".def_static(", 0, m.start()))
        nxt = [x for x in (t.find(".def(", m.end()), t.find("py::class_", m.end()), t.find(";\n\n", m.end())) if x > 0]
        chunk = t[a:min(nxt) if nxt else len(t)]
        cl = t.rfind("py::class_<", 0, a)
        cls = re.match(r"py::class_<\s*(\w+)", t[cl:]).group(1) if cl >= 0 else ""
        name = (re.search(r'"(\w+)"', chunk) or [None, "?"])[1]
        where = "core/bindings/Binding.cpp:%d (%s.%s)" % (t[:a].count("\n") + 1, cls, name)
        ms = set(re.findall(r"&%s::(\w+)" % cls, chunk)) | {x for x in re.findall(r"\b\w+(?:\.|->)(\w+)\s*\(", chunk)}
        fids = [f["id"] for x in ms for f in ctx.prog.find("%s::%s" % (cls, x))]
        if not fids:
            ctx.und("released", where, "what it calls was not recognised")
            continue
        n += 1
        nc = {}
        for r in ctx.eff.reach_all(fids):
            for e in ctx.eff.ext.get(r, ()):
                if e.startswith("nc_"):
                    nc.setdefault(e, r)
        if nc:
            e = sorted(nc)[0]
            ctx.bad("released", "netcdf:" + name, where, "it runs with the interpreter lock released and reaches %s (%s); that library is not thread safe" % (e, short_path(ctx, fids, nc[e])))
        elif re.search(r"py::(object|list|dict|print|cast|module|str|tuple|array|function|exec|eval|handle)\b", chunk):
            ctx.bad("released", "python:" + name, where, "it touches Python objects with the interpreter lock released")
        else:
            ctx.ok("released", where)
    if not n:
        ctx.ok("released", "core/bindings/Binding.cpp", "nothing releases the lock")


def run(ctx):
    ctx.rule("storage", "no variable of static storage that can change is used by what running, resetting, saving, dumping or reading a model reaches")
    ctx.rule("first-use", "no constant of static storage takes its value from a parameter, local or member")
    ctx.rule("log", "the state of the message log is atomic or only used with its mutex held")
    ctx.rule("library", "no library function working on the state of the process is reached")
    ctx.rule("released", "what runs with the interpreter lock released reaches neither netCDF nor Python")
    rs = roots(ctx.prog)
    reached = ctx.eff.reach_all(rs)
    S = Statics(ctx)
    files = {f["file"] for n in ("LogMessage", "LogWarning", "LogError") for f in ctx.prog.find(n) if not f["file"].endswith(".h")}
    if not files:
        raise Broken("the message log was not found")
    storage(ctx, S, rs, reached, files)
    log(ctx, S, files)
    library(ctx, rs, reached)
    released(ctx)
    for r in reached:
        if r in ctx.prog.fn:
            ctx.fns.add(r)
