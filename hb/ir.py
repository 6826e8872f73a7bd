"""Program model over the extracted facts: functions, classes, dispatch, tree walking.

The tree is normalised once (smart pointer dereferences, std::move, string
construction, container subscripts), so that every later analysis judges what an
expression denotes and not how it is spelled."""
import json, os, re, time, hashlib
from . import extract as _ex
from .extract import Broken, REPO, VERIF

PASS_THROUGH = {"std::move", "std::forward", "std::as_const", "std::addressof"}
SMART = ("std::unique_ptr<", "std::shared_ptr<")
STRN = ("std::basic_string<", "std::basic_string_view<")


def strip_ty(t):
    t = (t or "").strip()
    while True:
        o = t
        for p in ("const ", "volatile ", "class ", "struct "):
            if t.startswith(p):
                t = t[len(p):]
        for s in ("&&", "&", "*", " const"):
            if t.endswith(s):
                t = t[:-len(s)].strip()
        if t == o:
            return t


def smart_inner(t):
    """unique_ptr<T> -> T (as written), else None"""
    t = strip_ty(t)
    for p in SMART:
        if t.startswith(p):
            d, s = 0, t[len(p):]
            for i, ch in enumerate(s):
                if ch in "<(":
                    d += 1
                elif ch in ">)":
                    if d == 0:
                        return s[:i].strip()
                    d -= 1
                elif ch == "," and d == 0:
                    return s[:i].strip()
    return None


def elem_type(t):
    """vector<T>/array/map value type, textual"""
    t = strip_ty(t)
    m = re.match(r"std::(vector|array|deque|list|initializer_list|set|unordered_set|span)<", t)
    if m:
        s = t[m.end():]
        d = 0
        for i, ch in enumerate(s):
            if ch in "<(":
                d += 1
            elif ch in ">)":
                if d == 0:
                    return s[:i].strip()
                d -= 1
            elif ch == "," and d == 0:
                return s[:i].strip()
    m = re.match(r"std::(map|unordered_map)<", t)
    if m:
        s = t[m.end():]
        d, parts, cur = 0, [], ""
        for ch in s:
            if ch in "<(":
                d += 1
            elif ch in ">)":
                if d == 0:
                    parts.append(cur)
                    break
                d -= 1
            if ch == "," and d == 0:
                parts.append(cur)
                cur = ""
                continue
            cur += ch
        return parts[1].strip() if len(parts) > 1 else None
    return None


def norm(e):
    """Normalises one expression/statement tree (in place style, returns new)."""
    if isinstance(e, list):
        return [norm(x) for x in e]
    if not isinstance(e, dict):
        return e
    e = {k: norm(v) if isinstance(v, (dict, list)) else v for k, v in e.items()}
    k = e.get("k")
    if k == "call":
        n = e.get("n", "")
        if n in PASS_THROUGH and len(e.get("args", ())) == 1:
            return e["args"][0]
        short = n.rsplit("::", 1)[-1]
        rc = e.get("recv")
        if rc is not None and n.startswith(SMART):
            if e.get("op") == "->" or short == "get":
                return rc
            if e.get("op") == "*":
                return {"k": "un", "op": "*", "e": rc, "l": e.get("l"), "ty": e.get("ty")}
            if short == "operator bool":
                return {"k": "cast", "imp": True, "to": "bool", "e": rc, "l": e.get("l")}
        if rc is not None and e.get("op") == "[]" and n.startswith(("std::vector", "std::array", "std::span", "std::deque")):
            return {"k": "idx", "b": rc, "i": e["args"][0], "l": e.get("l"), "ty": e.get("ty")}
        if rc is not None and short == "at" and n.startswith(("std::vector", "std::array", "std::deque")):
            return {"k": "idx", "b": rc, "i": e["args"][0], "l": e.get("l"), "ty": e.get("ty"), "checked": True}
        if rc is not None and (e.get("op") in ("()", "[]")) and n.startswith("Eigen::") and len(e["args"]) == 1:
            return {"k": "idx", "b": rc, "i": e["args"][0], "l": e.get("l"), "ty": e.get("ty"), "eigen": True}
        if rc is not None and short == "operator basic_string_view" :
            return rc
        if n.startswith("std::size") and len(e.get("args", ())) == 1:
            return dict(e, n="std::vector::size", recv=e["args"][0], args=[])
    elif k == "ctor":
        n = e.get("n", "")
        if n.startswith(STRN) and e.get("args") and not n.startswith("std::basic_format"):
            a0 = e["args"][0]
            real = [a for a in e["args"] if not (isinstance(a, dict) and a.get("k") == "ctor" and "allocator" in a.get("n", ""))]
            if len(real) == 1 and isinstance(a0, dict):
                return a0
        if n.startswith(STRN) and not [a for a in e.get("args", []) if not (a.get("k") == "ctor" and "allocator" in a.get("n", ""))]:
            return {"k": "str", "v": "", "l": e.get("l")}
        if n.startswith("std::basic_format_string") and len(e["args"]) == 1:
            return e["args"][0]
        if n.startswith(SMART) and len(e.get("args", ())) == 1:
            return e["args"][0]
    elif k == "copy":
        pass
    return e


class Prog:
    def __init__(self, facts):
        self.facts = facts
        self.repo = REPO
        self.fn = {}
        for f in facts["functions"]:
            f["body"] = norm(f.get("body"))
            if f.get("inits"):
                f["inits"] = norm(f["inits"])
            for q in f.get("params", []):
                if q.get("def"):
                    q["def"] = norm(q["def"])
            self.fn[f["id"]] = f
        self.cls = {c["n"]: c for c in facts["classes"]}
        self.enums = {e["n"]: e for e in facts["enums"]}
        self.globals = {g["n"]: g for g in facts["globals"]}
        self.sub = {}
        for c in facts["classes"]:
            for b in c["bases"]:
                self.sub.setdefault(b, []).append(c["n"])
        self.field = {}
        for c in facts["classes"]:
            for f in c["fields"]:
                f["init"] = norm(f.get("init"))
                f["cls"] = c["n"]
                self.field[f["q"]] = f
        self.by_name = {}
        for f in facts["functions"]:
            self.by_name.setdefault(f["n"], []).append(f)
        self.over = {}          # method id -> ids overriding it directly
        self.method = {}
        for c in facts["classes"]:
            for m in c["methods"]:
                self.method[m["id"]] = (c["n"], m)
                for o in m["over"]:
                    self.over.setdefault(o, []).append(m["id"])
        for f in facts["functions"]:
            for o in f.get("over", []):
                if f["id"] not in self.over.get(o, []):
                    self.over.setdefault(o, []).append(f["id"])

    # -- hierarchy
    def bases(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            if x in self.cls:
                todo += self.cls[x]["bases"]
        return out

    def subs(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            todo += self.sub.get(x, [])
        return out

    def concrete(self, c):
        return [x for x in self.subs(c) if x in self.cls and not self.cls[x].get("abstract")]

    def is_a(self, c, b):
        return b in self.bases(c)

    def fields_of(self, c):
        out = []
        for b in self.bases(c):
            if b in self.cls:
                out += self.cls[b]["fields"]
        return out

    # -- dispatch
    def overriders(self, mid):
        out, todo = [], [mid]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.append(x)
            todo += self.over.get(x, [])
        return out

    def resolve(self, mid, cls):
        """The final overrider of method id `mid` for an object of exact class cls."""
        cands = set(self.overriders(mid))
        roots = [mid]
        # also consider overriders of what mid overrides (mid may be declared in the middle)
        for b in self.bases(cls):
            c = self.cls.get(b)
            if not c:
                continue
            for m in c["methods"]:
                if m["id"] in cands:
                    return m["id"]
        return mid

    def targets(self, call, this_cls=None):
        """Possible callee ids of a call expression."""
        fn = call.get("fn")
        if not fn:
            return []
        if not call.get("virt"):
            return [fn]
        if this_cls is not None:
            return [self.resolve(fn, this_cls)]
        rty = strip_ty(call.get("rty") or "")
        if rty in self.cls:
            out = []
            for s in self.subs(rty):
                if self.cls.get(s, {}).get("abstract"):
                    continue
                t = self.resolve(fn, s)
                if t not in out:
                    out.append(t)
            if out:
                return out
        return [t for t in self.overriders(fn) if t in self.fn]

    def find(self, qual, pred=None):
        fs = [f for f in self.by_name.get(qual, []) if pred is None or pred(f)]
        return fs

    def one(self, qual, pred=None, need=True):
        fs = self.find(qual, pred)
        if len(fs) != 1:
            fs2 = [f for f in fs if f.get("body")]
            if len(fs2) == 1:
                return fs2[0]
            if need:
                raise Broken("anchor function %s: %d definitions" % (qual, len(fs)))
            return fs[0] if fs else None
        return fs[0]

    def loc(self, f, line=None):
        return "core/src/%s:%s" % (f["file"], line if line else f["l"])


# -- walking
def children(e):
    if isinstance(e, list):
        for x in e:
            yield from children(x) if isinstance(x, list) else ([x] if isinstance(x, dict) else [])
        return
    for k, v in e.items():
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(e, into_lambda=True):
    if e is None:
        return
    todo = [e] if isinstance(e, dict) else [x for x in e if isinstance(x, dict)]
    while todo:
        x = todo.pop()
        yield x
        if x.get("k") == "lambda" and not into_lambda:
            continue
        ch = list(children(x))
        todo.extend(reversed(ch))


def calls(e, into_lambda=True):
    for x in walk(e, into_lambda):
        if x.get("k") in ("call", "ctor"):
            yield x


def fn_nodes(f):
    for i in f.get("inits") or []:
        if isinstance(i.get("e"), dict):
            yield from walk(i["e"])
    if f.get("body"):
        yield from walk(f["body"])


def strip_cast(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "copy") and not e.get("dyn"):
        e = e["e"]
    return e


_CACHE = os.path.join(VERIF, "build", "facts")


def source_hash(repo):
    h = hashlib.sha256()
    base = os.path.join(repo, "core", "src")
    fs = []
    for d, _, ff in os.walk(base):
        for f in ff:
            if f.endswith((".cpp", ".h", ".hpp", ".inl")):
                fs.append(os.path.join(d, f))
    for f in sorted(fs):
        h.update(os.path.relpath(f, base).encode() + b"\0")
        h.update(open(f, "rb").read())
        h.update(b"\0")
    h.update(open(os.path.join(VERIF, "extract", "hbx.cpp"), "rb").read())
    h.update(open(os.path.join(VERIF, "hb", "extract.py"), "rb").read())
    return h.hexdigest()


def load(repo=None):
    """Facts of the current sources; reused only for byte-identical sources."""
    repo = repo or REPO
    key = source_hash(repo)
    p = os.path.join(_CACHE, key + ".json")
    if os.path.exists(p):
        try:
            return Prog(json.load(open(p)))
        except Exception:
            pass
    facts = _ex.extract(repo)
    try:
        os.makedirs(_CACHE, exist_ok=True)
        old = []
        for x in os.listdir(_CACHE):
            q = os.path.join(_CACHE, x)
            age = time.time() - os.path.getmtime(q)
            if age > (60 if x.endswith(".json") else 1800):
                old.append((age, q))
        for _, q in sorted(old)[6:]:
            os.remove(q)
    except OSError:
        pass
    try:
        tmp = p + ".%d.tmp" % os.getpid()
        json.dump(facts, open(tmp, "w"))
        os.replace(tmp, p)
    except OSError:
        pass
    return Prog(facts)
