"""C05: a failure that was noticed is not reported as success.

A path analysis of every function of the core. An error is noticed where it is logged, where a
handler catches an exception, and where a call of a function that may fail answers with its
failure. From each such place every path to the end of the function is followed, with what is
known of the truth values held in local variables: it has to end in an exception or in the
function's own failure (`false`, an unexpected result, no number, no object). Functions that may
fail are found by a fixed point over the call graph, so each link of a chain up to the public
interface is an obligation. The Python package and the bindings are analysed as text and syntax
trees for the last link."""
import ast, os, re
from .. import vals as V
from ..ir import Broken, REPO, walk, fn_nodes

ASSUMPTIONS = ["Errors noticed while the amounts of a time step are computed, where the code goes on with a stated substitute, are not failures of the run.",
               "A function that logs no error, throws nothing and answers false is asked, not failing.",
               "Loops are followed for two rounds; conditions other than truth values held in variables may go either way."]
OK, FAIL = "T", "F"
# operations whose documented answer is whether they succeeded, even where no error is logged
STATUS = {"Solve", "ProcessTimeStep", "ComputeOutletDischarge", "SetCursorToDate", "AdvanceOneTimeStep", "ApplyRecursive", "Apply", "Init",
          "AddAction", "DumpOutputs", "IsValid", "IsOk"}


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "copy", "paren") and isinstance(e.get("e"), dict):
        e = e["e"]
    return e


def key_of(e):
    e = strip(e)
    if not isinstance(e, dict):
        return None
    if e.get("k") == "ref" and e.get("id"):
        return e["id"]
    if e.get("k") == "mem" and e.get("f"):
        return "m:" + e["f"]
    return None


class Paths:
    """all ends of a function after a trigger"""
    limit = 4000

    def __init__(self, body, trigger, always=(), outer=()):
        self.always, self.outer = always, outer
        self.trigger, self.exits = trigger, []
        self.reached, self.n = False, 0
        self.brk, self.cnt, self.tries = [], [], []
        out = self.run(body, {(False, frozenset())})
        for s in out:
            self.exits.append((s, "end", body.get("el") or body.get("l")))

    # states are (noticed, frozenset of (variable, value))
    @staticmethod
    def get(s, k):
        return dict(s[1]).get(k) if k else None

    @staticmethod
    def put(s, k, v):
        if k is None:
            return s
        d = dict(s[1])
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
        return (s[0], frozenset(d.items()))

    @staticmethod
    def inv(v):
        return {OK: FAIL, FAIL: OK}.get(v)

    def each(self, es, states):
        for e in es:
            nxt = set()
            for s in states:
                nxt |= {x for x, v in self.ev(e, s)}
            states = nxt
        return states

    def ev(self, e, s):
        """[(state, truth value or None)]"""
        self.n += 1
        if self.n > 60000:
            raise V.Unknown("too many paths")
        if not isinstance(e, dict):
            return [(s, None)]
        k = e.get("k")
        if k == "bool":
            return [(s, OK if e["v"] else FAIL)]
        if k == "null":
            return [(s, FAIL)]
        if k in ("cast", "copy"):
            return self.ev(e.get("e"), s)
        if k in ("ref", "mem"):
            if e.get("n") in ("NAN_D", "NAN_F", "NAN"):
                return [(s, FAIL)]
            v = self.get(s, key_of(e))
            v = None if v == "?" else v
            if k == "mem" and v is None and isinstance(e.get("b"), dict):
                return [(x, None) for x, _ in self.ev(e["b"], s)]
            return [(s, v)]
        if k == "un" and e.get("op") == "!":
            return [(x, self.inv(v)) for x, v in self.ev(e["e"], s)]
        if k == "bin" and e.get("op") in ("&&", "||"):
            stop = FAIL if e["op"] == "&&" else OK
            out = []
            for x, v in self.ev(e["a"], s):
                if v == stop:
                    out.append((x, stop))
                    continue
                if v is None:
                    out.append((self.refine(e["a"], x, stop), stop))
                    x = self.refine(e["a"], x, self.inv(stop))
                out += self.ev(e["b"], x)
            return out
        if k == "bin" and e.get("op") in ("==", "!="):
            out = []
            for x, a in self.ev(e["a"], s):
                for y, b in self.ev(e["b"], x):
                    lit = strip(e["a"]).get("k") in ("bool", "null") or strip(e["b"]).get("k") in ("bool", "null")
                    v = None
                    if lit and a and b:
                        v = OK if a == b else FAIL
                        if e["op"] == "!=":
                            v = self.inv(v)
                    out.append((y, v))
            return out
        if k == "cond":
            out = []
            for x, v in self.ev(e["c"], s):
                if v != FAIL:
                    out += self.ev(e["t"], self.refine(e["c"], x, OK))
                if v != OK:
                    out += self.ev(e["e"], self.refine(e["c"], x, FAIL))
            return out
        if k == "asg":
            out = []
            for x, v in self.ev(e["b"], s):
                for y, old in self.ev(e["a"], x):
                    if e.get("op") == "&=":
                        v = FAIL if FAIL in (v, old) else OK if v == old == OK else None
                    elif e.get("op") == "|=":
                        v = OK if OK in (v, old) else FAIL if v == old == FAIL else None
                    elif e.get("op") not in ("=", None):
                        v = None
                    fresh = strip(e["b"]).get("k") == "call" and e.get("op") in ("=", None) and not any(self.get(y, key_of(q)) for q in walk(e["b"]))
                    out.append((self.put(y, key_of(e["a"]), "?" if v is None and y[0] and not fresh else v), v))
            return out
        if k == "un" and e.get("op") in ("++", "--"):
            return [(self.put(x, key_of(e["e"]), "?") if x[0] else x, None) for x, v in self.ev(e["e"], s)]
        if k == "throw":
            for x in self.each([e["e"]] if e.get("e") else [], {s}):
                self.thrown(x)
            return []
        if k == "lambda":
            return [(s, None)]
        if k in ("call", "ctor"):
            return self.called(e, s)
        subs = []
        for key in ("c", "b", "a", "e", "i", "init"):
            if isinstance(e.get(key), dict):
                subs.append(e[key])
        subs += [x for x in e.get("es") or [] if isinstance(x, dict)]
        return [(x, None) for x in self.each(subs, {s})]

    def called(self, e, s):
        n = e.get("n") or ""
        args = [a for a in e.get("args") or []]
        out = []
        if "std::unexpected" in n:
            return [(x, FAIL) for x in self.each(args, {s})]
        if "std::expected" in n or n in ("std::move", "std::forward"):
            last = n.rsplit("::", 1)[-1]
            if last == "operator=":
                for x, v in self.ev(args[0], s) if args else [(s, OK)]:
                    out.append((self.put(x, key_of(e.get("recv")), v), v))
                return out
            if e.get("recv") is not None:
                vs = self.ev(e["recv"], s)
                return [(x, v if last in ("has_value", "operator bool") or last.startswith("operator") else None) for x, v in vs]
            if e["k"] == "ctor" and not args:
                return [(s, OK)]
            if len(args) == 1:
                return self.ev(args[0], s)
        states = self.each(([e["recv"]] if isinstance(e.get("recv"), dict) else []) + args, {s})
        if n.startswith("std::") and n.rsplit("::", 1)[-1] in ("operator=", "operator+=", "push_back", "emplace_back", "insert", "emplace", "append", "assign"):
            dst = key_of(e.get("recv"))
            states = {self.put(x, dst, "?") if x[0] and dst else x for x in states}
        if e is self.trigger:
            self.reached = True
            return [((True, x[1]), FAIL) for x in states] + [(x, OK) for x in states if x[0]]
        states = {self.put(x, "unsure", OK) if self.handed(e, x) else x for x in states}
        if e.get("fn") in self.always:
            return [(x, FAIL) for x in states]
        return [(x, None) for x in states]

    def told(self, s, c):
        """where a loop was left tells what happened"""
        if s[0] and isinstance(c, dict):
            for y in walk(c):
                if y.get("k") in ("ref", "mem") and key_of(y) and self.get(s, key_of(y)) is None:
                    s = self.put(s, key_of(y), "?")
        return s

    def handed(self, e, s):
        """the failure is given to a function, which may throw"""
        n = (e.get("n") or "").rsplit("::", 1)[-1]
        if not s[0] or n.startswith("Log") or (e.get("n") or "").startswith("std::") and "function" not in e["n"]:
            return False
        for a in e.get("args") or []:
            b = strip(a)
            if isinstance(b, dict) and (b is self.trigger or b.get("k") in ("ref", "un", "asg") and any(self.get(s, key_of(y)) == FAIL or y is self.trigger for y in walk(b))):
                return True
        return False

    def apart(self, s, e):
        """a truth value of things that the noticed failure did not touch"""
        seen = False
        for y in walk(e):
            if y.get("k") == "lambda" or y.get("k") == "call" and not (y.get("n") or "").startswith("std::"):
                return False
            if y.get("k") in ("ref", "mem"):
                seen = True
                if self.get(s, key_of(y)) is not None or y.get("k") == "ref" and "std::" in (y.get("ty") or "") and "expected" in y["ty"]:
                    return False
                if y.get("k") == "ref" and y.get("id") not in self.outer:
                    return False        # a local value may have been prepared for this
        return seen and strip(e).get("k") in ("un", "bin", "call")

    def refine(self, c, s, v):
        c = strip(c)
        if isinstance(c, dict) and c.get("k") == "un" and c.get("op") == "!":
            return self.refine(c["e"], s, self.inv(v))
        if isinstance(c, dict) and c.get("k") in ("ref", "mem") and (c.get("ty") or "").replace("const ", "").strip() == "bool":
            return self.put(s, key_of(c), v)
        return s

    def thrown(self, s):
        if self.tries:
            self.tries[-1].add(s)
        else:
            self.exits.append((s, "throw", None))

    def run(self, st, states):
        if st is None or not states:
            return states
        if len(states) > self.limit:
            raise V.Unknown("too many states")
        k = st.get("k")
        if k == "block":
            for x in st["s"]:
                states = self.run(x, states)
            return states
        if k == "expr":
            return self.each([st["e"]], states) if st.get("e") else states
        if k == "decl":
            for v in st["vars"]:
                if isinstance(v.get("init"), dict):
                    nxt = set()
                    for s in states:
                        for x, val in self.ev(v["init"], s):
                            nxt.add(self.put(x, v["id"], val))
                    states = nxt
            return states
        if k == "if":
            if st.get("init"):
                states = self.run(st["init"], states)
            if st.get("var"):
                states = self.run({"k": "decl", "vars": [st["var"]]}, states)
            c = st.get("c")
            yes, no = set(), set()
            for s in states:
                for x, v in self.ev(c, s):
                    if v is None and x[0] and isinstance(c, dict) and any(self.get(x, key_of(y)) == "?" for y in walk(c)):
                        x = self.put(x, "unsure", OK)   # what was noticed may decide the branch
                    if v != FAIL:
                        yes.add(self.refine(c, x, OK))
                    if v != OK:
                        no.add(self.refine(c, x, FAIL))
            return self.run(st["t"], yes) | self.run(st.get("e"), no)
        if k in ("while", "for", "rfor", "do"):
            if k == "for" and st.get("i"):
                states = self.run(st["i"], states)
            if k == "rfor":
                states = self.each([st["range"]], states) if isinstance(st.get("range"), dict) else states
            out = set() if k == "do" else set(states) if k == "rfor" else set()
            cur = states
            for rnd in range(3):
                if k in ("while", "for") and isinstance(st.get("c"), dict):
                    nxt = set()
                    for s in cur:
                        for x, v in self.ev(st["c"], s):
                            if v != OK:
                                y = self.refine(st["c"], x, FAIL)
                                out.add(self.told(y, st["c"]) if y[0] and not s[0] else y)
                            if v != FAIL:
                                nxt.add(self.refine(st["c"], x, OK))
                    cur = nxt
                if rnd == 2 or not cur:
                    break
                self.brk.append(set())
                self.cnt.append(set())
                cur = self.run(st["b"], cur) | self.cnt.pop()
                out |= {self.told(x, st.get("c")) for x in self.brk.pop()}
                if k == "for" and isinstance(st.get("inc"), dict):
                    cur = self.each([st["inc"]], cur)
                if k == "do" and isinstance(st.get("c"), dict):
                    cur = self.each([st["c"]], cur)
                if k in ("do", "rfor"):
                    out |= cur
            return out
        if k == "break":
            if self.brk:
                self.brk[-1] |= states
            return set()
        if k == "continue":
            if self.cnt:
                self.cnt[-1] |= states
            return set()
        if k == "return":
            for s in states:
                if st.get("e"):
                    for x, v in self.ev(st["e"], s):
                        lit = strip(st["e"])
                        if lit.get("k") == "int":
                            v = OK if lit.get("v") in (0, "0") else FAIL
                        if v is None and x[0] and self.apart(x, st["e"]):
                            x = self.put(x, "aside", OK)
                        self.exits.append((x, v, st.get("l")))
                else:
                    self.exits.append((s, "end", st.get("l")))
            return set()
        if k == "switch":
            states = self.each([st["c"]], states)
            self.brk.append(set())
            cur, had = set(), False
            todo = list(st["b"].get("s") or [])

            def flat(x):
                nonlocal had
                if x and x.get("k") in ("case", "default"):
                    had = had or x["k"] == "default"
                    y, lab = flat(x.get("s"))
                    return y, True
                return x, False
            for x in todo:
                y, lab = flat(x)
                if lab:
                    cur = cur | states
                cur = self.run(y, cur) if y else cur
            return cur | self.brk.pop() | (set() if had else states)
        if k == "try":
            self.tries.append(set())
            self.entered = states
            out = self.run(st["b"], states)
            caught = self.tries.pop()
            for h in st.get("h") or []:
                ent = set(caught)
                if h is self.trigger:
                    self.reached = True
                    ent |= {(True, s[1]) for s in states} | {(True, frozenset())}
                out |= self.run(h["b"], ent)
                ty = (h.get("ty") or "...").replace("const ", "").strip(" &")
                if ty not in ("...", "std::exception"):
                    for s in caught:
                        self.thrown(s)
            if not st.get("h"):
                for s in caught:
                    self.thrown(s)
            return out
        if k in ("case", "default", "label"):
            return self.run(st.get("s"), states)
        if k == "throw":
            for x in self.each([st["e"]] if st.get("e") else [], states):
                self.thrown(x)
            return set()
        return states


def handlers(body):
    out, todo = [], [body]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("k") == "lambda":
                continue
            if x.get("k") == "try":
                out += [h for h in x.get("h") or []]
            todo += list(x.values())
        elif isinstance(x, list):
            todo += x
    return out


def calls(body):
    out, todo = [], [body]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("k") == "lambda":
                continue
            if x.get("k") == "call":
                out.append(x)
            todo += list(x.values())
        elif isinstance(x, list):
            todo += x
    return out


def bare(t):
    return (t or "").replace("const ", "").strip()


def elsewhere(f, line):
    """the statement returns what another function answers, and hands it nothing of this one"""
    for x in returns(f["body"]):
        e = strip(x.get("e"))
        while isinstance(e, dict) and e.get("k") in ("ctor", "call") and ("std::expected" in (e.get("n") or "") or e.get("n") == "std::move") and len(e.get("args") or []) == 1:
            e = strip(e["args"][0])
        if x.get("l") == line and isinstance(e, dict) and e.get("k") == "call" and not (e.get("n") or "").startswith("std::"):
            params = {y.get("id") for y in f.get("params") or []}
            return not any(y.get("k") == "ref" and y.get("id") and y["id"] not in params for y in walk(e))
    return False


def returns(body):
    out, todo = [], [body]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("k") == "lambda":
                continue
            if x.get("k") == "return":
                out.append(x)
            todo += list(x.values())
        elif isinstance(x, list):
            todo += x
    return out


def verdict(f, p):
    """(ends that fail, ends that do not) of the paths on which the error was noticed"""
    good, bad = [], []
    ret = bare(f.get("ret"))
    plain = {l for s, v, l in p.exits if not s[0] and v != "throw"}
    for s, v, l in p.exits:
        if not s[0] or dict(s[1]).get("unsure"):
            continue
        if v == "throw" or v == FAIL:
            good.append(l)
        elif v is None and ret not in ("void", ""):
            if dict(s[1]).get("aside"):
                bad.append((v, l))      # decided by something else
            elif l in plain and elsewhere(f, l):
                bad.append((v, l))      # another operation's answer
            elif ret in ("bool", "int") or "expected" in ret:
                good.append(l)          # computed from other things
            elif l in plain:
                bad.append((v, l))      # the answer it gives when all is well
            else:
                good.append(l)
        else:
            bad.append((v, l))
    return good, bad


def tells(f):
    """functions whose answer is their success"""
    ret = bare(f.get("ret"))
    return ret == "bool" or "expected" in ret or ret == "int" and f["n"] in ("main", "RunModel")


def computing(ctx):
    """the functions that a time step runs"""
    p = ctx.prog
    todo = [f["id"] for f in p.fn.values() if f["n"] in ("Processor::ProcessTimeStep",) or f["n"].endswith("::GetRates") or f["n"].endswith("::Compute") or f["n"].endswith("::Apply") and p.is_a(f.get("cls") or "", "Action")]
    seen = set(todo)
    byname = {}
    for f in p.fn.values():
        byname.setdefault(f["n"], []).append(f["id"])
        if f.get("cls"):
            byname.setdefault("::" + f["n"].rsplit("::", 1)[-1], []).append(f["id"])
    while todo:
        f = p.fn[todo.pop()]
        for x in calls(f.get("body")):
            ids = [x["fn"]] if x.get("fn") in p.fn else []
            if x.get("virt"):
                ids += [i for i in byname.get("::" + (x.get("n") or "").rsplit("::", 1)[-1], [])]
            for i in ids:
                if i not in seen:
                    seen.add(i)
                    todo.append(i)
    return seen


def targets(p, x, over):
    i = x.get("fn")
    out = [i] if i in p.fn else []
    if x.get("virt"):
        out += over.get((x.get("n") or "").rsplit("::", 1)[-1], {}).get((x.get("n") or "").rsplit("::", 1)[0], [])
    return out


def core(ctx):
    p = ctx.prog
    step = computing(ctx)
    fns = [f for f in p.fn.values() if f.get("body") and not f["file"].endswith(("Log.cpp", "Log.h"))]
    over = {}
    for f in p.fn.values():
        if f.get("cls"):
            for c in p.cls:
                if p.is_a(f["cls"], c):
                    over.setdefault(f["n"].rsplit("::", 1)[-1], {}).setdefault(c, []).append(f["id"])
    fallible = {}
    sites = {f["id"]: calls(f["body"]) for f in fns}
    memo = {}

    def follow(f, trig):
        k = (f["id"], id(trig))
        if k not in memo:
            try:
                q = Paths(f["body"], trig, always, {y.get("id") for y in f.get("params") or []})
                memo[k] = verdict(f, q) if q.reached else ([], [])
            except V.Unknown as u:
                memo[k] = u
        return memo[k]
    # helpers that only fail
    always = set()
    more = True
    while more:
        more = False
        for f in fns:
            if f["id"] in always or not tells(f) or not returns(f["body"]):
                continue
            try:
                q = Paths(f["body"], None, always)
            except V.Unknown:
                continue
            if q.exits and all(v in ("throw", FAIL) for s, v, l in q.exits) and any(v == FAIL for s, v, l in q.exits):
                always.add(f["id"])
                more = True
    for f in fns:
        if f["n"].rsplit("::", 1)[-1] in STATUS and tells(f):
            fallible[f["id"]] = f["l"]
    changed = True
    rounds = 0
    while changed and rounds < 12:
        changed = False
        rounds += 1
        for f in fns:
            ret = bare(f.get("ret"))
            if f["id"] in fallible or not tells(f):
                continue
            for x in sites[f["id"]] + handlers(f["body"]):
                if x.get("k") == "call" and not (x.get("n") == "LogError" or any(t in fallible for t in targets(p, x, over))):
                    continue
                r = follow(f, x)
                if isinstance(r, tuple) and any(l is not None for l in r[0]):
                    fallible[f["id"]] = x.get("l")
                    changed = True
                    break
            else:
                if "expected" in ret and any("std::unexpected" in (y.get("n") or "") for y in fn_nodes(f) if y.get("k") == "ctor"):
                    fallible[f["id"]] = f["l"]
                    changed = True
    if len(fallible) < 10:
        raise Broken("only %d functions that may fail were found" % len(fallible))
    # a function without answer that logs and goes on leaves the failure to its callers
    exposed = set(re.findall(r"&(\w+::\w+)", open(os.path.join(REPO, "core/bindings/Binding.cpp")).read()))
    callers = {}
    for f in fns:
        for x in sites[f["id"]]:
            for t in targets(p, x, over):
                if t != f["id"]:
                    callers.setdefault(t, set()).add(f["id"])
    silent = {}
    changed = True
    while changed:
        changed = False
        for f in fns:
            if f["id"] in silent or f["id"] in step or "~" in f["n"] or bare(f.get("ret")) not in ("void", "") or f["n"] in exposed or not callers.get(f["id"]):
                continue
            for x in sites[f["id"]]:
                if x.get("n") == "LogError" or any(t in silent for t in targets(p, x, over)):
                    r = follow(f, x)
                    if isinstance(r, tuple) and r[1]:
                        silent[f["id"]] = x
                        changed = True
                        break
    for f in sorted(fns, key=lambda f: (f["file"], f["l"])):
        if "~" in f["n"]:
            continue
        where = ctx.at(f)
        for x in sites[f["id"]]:
            ts = [t for t in targets(p, x, over) if t in fallible]
            if x.get("n") == "LogError" or any(t in silent for t in targets(p, x, over)):
                if f["id"] in step or f["id"] in silent:
                    continue
                judge(ctx, "logged", f, x, where, follow(f, x), "an error is logged")
            elif ts:
                judge(ctx, "passed on", f, x, where, follow(f, x), "%s fails" % x["n"])
        for h in handlers(f["body"]):
            judge(ctx, "handlers", f, h, where, follow(f, h), "an exception is caught")
    return fallible


def judge(ctx, rule, f, x, where, r, what):
    text = x.get("n") or x.get("ty") or "handler"
    args = [a.get("v") for a in x.get("args") or [] if isinstance(a, dict) and a.get("k") == "str"]
    args += [y.get("v") for a in x.get("args") or [] if isinstance(a, dict) for y in walk(a) if y.get("k") == "str"][:1]
    key = "%s %s%s" % (f["n"], text, " '%s'" % args[0][:50] if args else "")
    at = "%s:%s (%s)" % (f["file"], x.get("l") or f["l"], f["n"])
    if not isinstance(r, tuple):
        ctx.und(rule, at, "%s: %s" % (key, r))
        return
    good, bad = r
    if bad:
        v, l = bad[0]
        ctx.bad(rule, key, at, "%s: %s (line %s) and the function ends at line %s %s" % (f["n"], what, x.get("l"), l, "with success" if v == OK else "without a failure"))
    elif good:
        ctx.ok(rule, at, key)


# ------------------------------------------------------------- the last link
def bindings(ctx, fallible):
    p = ctx.prog
    path = os.path.join(REPO, "core/bindings/Binding.cpp")
    try:
        t = open(path).read()
    except OSError:
        raise Broken("core/bindings/Binding.cpp not found")
    by = {}
    for i in fallible:
        f = p.fn[i]
        by.setdefault(f["n"], f)
    names = {}
    for m in re.finditer(r'\.def(?:_static)?\(\s*"(\w+)"\s*,\s*(?:py::overload_cast<[^;]*?>\(\s*)?&(\w+)::(\w+)', t):
        cls, fn = m.group(2), m.group(3)
        f = next((by[n] for n in by if n == "%s::%s" % (cls, fn) or n.endswith("::" + fn) and cls in p.cls and n.rsplit("::", 1)[0] in p.cls and p.is_a(cls, n.rsplit("::", 1)[0])), None)
        if f is None:
            continue
        ln = t.count("\n", 0, m.start()) + 1
        names.setdefault(m.group(1), f)
        ctx.check("expected" not in bare(f.get("ret")), "bindings", "%s" % m.group(1), "core/bindings/Binding.cpp:%d" % ln, "%s hands the result of %s over without telling its failure" % (m.group(1), f["n"]))
    chunks = re.split(r'(?=\.def(?:_static)?\()', t)
    at = 0
    for c in chunks:
        ln = t.count("\n", 0, at) + 1
        at += len(c)
        m = re.match(r'\.def(?:_static)?\(\s*"(\w+)"', c)
        if not m or "[](" not in c:
            continue
        for n, f in by.items():
            short = n.rsplit("::", 1)[-1]
            q = re.search(r"[.>]%s\(" % re.escape(short), c)
            if not q:
                continue
            ret = bare(f.get("ret"))
            if "expected" in ret:
                v = re.search(r"(\w+)\s*=\s*[\w.>-]*%s\(" % re.escape(short), c)
                good = "throw" in c[q.start():] and (v is None or re.search(r"(!\s*%s\b|!\s*%s\.has_value|%s\.has_value\(\)\s*==\s*false)" % ((v.group(1),) * 3), c) is not None)
                after = c[q.start():]
                before = c[:q.start()]
                if not good and v is not None:
                    w = v.group(1)
                    good = re.search(r"\b(?!if\b|while\b|return\b|sizeof\b)\w+\(\s*(?:std::move\()?%s\b(?!\.)" % w, after) is not None or re.search(r"\b%s\.value\(\)" % w, after) is not None or re.search(r"return\s+%s\b" % w, after) is not None
                if not good:
                    good = re.search(r"\b(?!if\b|while\b)\w+\(\s*[\w.>-]*$", before[-60:]) is not None or re.match(r"[^;{]*\)\s*\.(value|or_else)\(", after) is not None
                ctx.check(good, "bindings", "%s calling %s" % (m.group(1), n), "core/bindings/Binding.cpp:%d" % ln, "%s does not tell that %s failed" % (m.group(1), n))
            elif ret == "bool":
                line = c[c.rfind("\n", 0, q.start()) + 1:c.find("\n", q.start())]
                used = re.search(r"return|=|if|!|&&|\|\||\?", line[:line.find(short)])
                ctx.check(bool(used), "bindings", "%s calling %s" % (m.group(1), n), "core/bindings/Binding.cpp:%d" % ln, "%s drops the answer of %s" % (m.group(1), n))
                if used:
                    names.setdefault(m.group(1), f)
    return names


def leaves(stmts):
    """the statements end in an exception, or hand something on"""
    return any(isinstance(z, (ast.Raise, ast.Return, ast.Assign, ast.AugAssign, ast.Continue)) for st in stmts for z in ast.walk(st))


def ends(stmts):
    """every way through the statements raises, or may hand the failure on"""
    for st in stmts:
        if isinstance(st, ast.Raise):
            return True
        if isinstance(st, ast.Return):
            return st.value is not None and not isinstance(st.value, ast.Constant) or isinstance(st.value, ast.Constant) and st.value.value is False
        if isinstance(st, ast.If) and st.orelse and ends(st.body) and ends(st.orelse):
            return True
        if isinstance(st, ast.With) and ends(st.body):
            return True
        if isinstance(st, (ast.Assign, ast.AugAssign)):
            return True             # kept for later
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and not re.match(r"(self\.)?_?(logger|logging|log|warnings)\b|print\b|traceback\b", ast.unparse(st.value.func)):
            return True             # a helper that may raise
    return False


def inside(stmts, inner):
    for st in stmts:
        for y in ast.walk(st):
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and re.fullmatch(r"self\.(model|settings\.settings|settings|action)", ast.unparse(y.func.value)):
                return y
    return None


def package(ctx, names):
    root = os.path.join(REPO, "python/src/hydrobricks")
    n = 0
    answers = {k for k, f in names.items() if bare(f.get("ret")) == "bool"}
    # methods of the package that pass an answer on
    defs = {}
    for d, _, fs in os.walk(root):
        for x in fs:
            if not x.endswith(".py"):
                continue
            path = os.path.join(d, x)
            try:
                tree = ast.parse(open(path).read())
            except SyntaxError as e:
                raise Broken("%s: %s" % (x, e))
            defs[os.path.relpath(path, REPO)] = tree
    inner = re.compile(r"(^|\.)(model|settings|action|_model|sub_basin|basin_settings|time_series)$")
    for path, tree in sorted(defs.items()):
        for f in [y for y in ast.walk(tree) if isinstance(y, (ast.FunctionDef, ast.AsyncFunctionDef))]:
            for y in ast.walk(f):
                if isinstance(y, ast.Try) and inside(y.body, inner) is not None:
                    c = ast.unparse(inside(y.body, inner).func)
                    for h in y.handlers:
                        ctx.check(ends(h.body), "package", "%s except %s" % (f.name, ast.unparse(h.type) if h.type else ""), "%s:%d (%s)" % (path, h.lineno, f.name), "%s goes on after an exception of %s" % (f.name, c))
                    ctx.check(not any(isinstance(z, ast.Return) for st in y.finalbody for z in ast.walk(st)), "package", "%s finally" % f.name, "%s:%d (%s)" % (path, y.lineno, f.name), "%s leaves the clean-up of %s with a return, which drops the exception" % (f.name, c))
                if isinstance(y, ast.With) and inside(y.body, inner) is not None:
                    ctx.check(not any("suppress(" in ast.unparse(i.context_expr) for i in y.items), "package", "%s suppress" % f.name, "%s:%d (%s)" % (path, y.lineno, f.name), "%s suppresses exceptions of %s" % (f.name, ast.unparse(inside(y.body, inner).func)))
                if not (isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in answers):
                    continue
                who = ast.unparse(y.func.value)
                if not inner.search(who):
                    continue
                # a method of the same name of the package's own classes answers differently
                if who in ("self.model", "self.settings.settings", "self.settings", "self.action") or who.endswith(".settings"):
                    n += 1
                    dropped = any(isinstance(z, ast.Expr) and z.value is y for z in ast.walk(f))
                    for z in ast.walk(f):
                        if isinstance(z, ast.If):
                            t = z.test
                            neg = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and t.operand is y
                            pos = t is y
                            side = z.body if neg else z.orelse if pos else None
                            if side is not None and not (pos and not side) and not leaves(side):
                                dropped = True
                    ctx.check(not dropped, "package", "%s:%s" % (f.name, ast.unparse(y)[:60]), "%s:%d (%s)" % (path, y.lineno, f.name), "%s drops the answer of %s, which is false when it fails" % (f.name, ast.unparse(y)[:60]))
    if not n:
        raise Broken("the package calls nothing that may fail")


def run(ctx):
    ctx.rule("logged", "after an error was logged outside the computations of a step, the function fails on every path")
    ctx.rule("passed on", "when a function that may fail does so, its caller fails on every path")
    ctx.rule("handlers", "a handler ends in a failure or an exception")
    ctx.rule("bindings", "the bindings tell the failure of what they call")
    ctx.rule("package", "the package does not drop the answer of an operation that may fail")
    fallible = core(ctx)
    names = bindings(ctx, fallible)
    package(ctx, names)
    ctx.fallible = fallible
