"""Field read/write effects, direct and transitive over the resolved call graph.

A write is an assignment, increment, or a mutating operation of a standard
container on the field, or passing it to a parameter that is written."""
import re
from .ir import walk, calls, strip_cast, strip_ty, children

MUTATORS = {"push_back", "emplace_back", "clear", "resize", "insert", "emplace", "erase", "assign", "pop_back",
            "reserve", "swap", "reset", "release", "setZero", "fill", "setConstant", "conservativeResize", "setOnes",
            "operator=", "operator+=", "operator-=", "operator*=", "operator/=", "try_emplace", "insert_or_assign",
            "append", "merge", "sort", "unique", "remove", "remove_if", "push_front", "pop_front", "push", "pop"}
STD_MUT_FREE = {"std::fill", "std::fill_n", "std::swap", "std::rotate", "std::sort", "std::copy", "std::iota",
                "std::reverse", "std::transform", "std::shift_left", "std::shift_right", "std::stable_sort",
                "std::ranges::fill", "std::ranges::sort", "std::exchange", "std::copy_n", "std::move_backward"}


def base_field(e):
    """The field designated by an lvalue: walks through indexing/deref of containers, not through pointers
    to other program objects.  Returns (mem node, depth) or None."""
    while True:
        e = strip_cast(e)
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k == "mem":
            return e
        if k == "idx":
            e = e["b"]
            continue
        if k == "un" and e["op"] == "*":
            e = e["e"]
            continue
        if k == "call" and e.get("recv") is not None and (e.get("op") in ("[]", "()", "*") or
                e.get("n", "").rsplit("::", 1)[-1] in ("begin", "end", "rbegin", "rend", "front", "back", "at", "data",
                                                         "row", "col", "array", "head", "tail", "segment", "block", "rowwise", "colwise")):
            e = e["recv"]
            continue
        return None


def base_var(e):
    while True:
        e = strip_cast(e)
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k == "ref":
            return e
        if k == "idx":
            e = e["b"]
        elif k == "un" and e["op"] == "*":
            e = e["e"]
        elif k == "mem":
            if e.get("ar"):
                return None
            e = e["b"]
        elif k == "call" and e.get("recv") is not None and (e.get("op") in ("[]", "()", "*", "->") or
                e.get("n", "").rsplit("::", 1)[-1] in ("begin", "end", "front", "back", "at", "data", "array")):
            e = e["recv"]
        else:
            return None


class Effects:
    def __init__(self, prog):
        self.p = prog
        self.w = {}       # fid -> set(field)
        self.r = {}
        self.gw = {}      # fid -> set(global / static local id) written
        self.gr = {}
        self.cg = {}      # fid -> set(fid)
        self.sites = {}   # (fid, field) -> lines written
        self.rsites = {}
        self.ext = {}     # fid -> external callee names
        for fid, f in prog.fn.items():
            self._direct(fid, f)
        self._tw = {}
        self._reach = {}

    def _direct(self, fid, f):
        w, r, gw, gr, cg, ext = set(), set(), set(), set(), set(), set()

        def write(e, line):
            b = base_field(e)
            if b is not None:
                w.add(b["f"])
                self.sites.setdefault((fid, b["f"]), []).append(line or b.get("l"))
                # a nested member a.b = .. writes the outer value member too
                o = b["b"]
                while isinstance(o, dict) and not b.get("ar"):
                    bb = base_field(o)
                    if bb is None:
                        break
                    w.add(bb["f"])
                    self.sites.setdefault((fid, bb["f"]), []).append(line or bb.get("l"))
                    b, o = bb, bb["b"]
            v = base_var(e)
            if v is not None and v.get("dk") in ("global", "slocal"):
                gw.add(v["id"] if v["dk"] == "global" else fid + "::" + v["n"])
            # aliases: reference locals bound to fields
            if v is not None and v.get("dk") == "local":
                a = alias.get(v["id"])
                if a is not None:
                    write(a, line)

        alias = {}
        nodes = []
        for i in f.get("inits") or []:
            if "f" in i:
                w.add(i["f"])
                self.sites.setdefault((fid, i["f"]), []).append(f["l"])
            if isinstance(i.get("e"), dict):
                nodes += list(walk(i["e"]))
        if f.get("body"):
            nodes += list(walk(f["body"]))
        for x in nodes:
            if x.get("k") == "decl":
                for v in x["vars"]:
                    ini = v.get("init")
                    if ini is not None and (v.get("ref") or v["ty"].endswith("*") or "iterator" in v["ty"]):
                        if v.get("ref") and not v.get("const"):
                            alias[v["id"]] = ini
                        elif isinstance(ini, dict):
                            s = strip_cast(ini)
                            if s.get("k") == "un" and s.get("op") == "&":
                                alias[v["id"]] = s["e"]
                            elif s.get("k") == "call" and s.get("recv") is not None and s.get("n", "").rsplit("::", 1)[-1] in ("begin", "data"):
                                alias[v["id"]] = s["recv"]
            elif x.get("k") == "rfor":
                v = x["v"]
                if v.get("ref") and not v["ty"].startswith("const") and isinstance(x["range"], dict):
                    et = v["ty"]
                    if not et.endswith("*") and "unique_ptr" not in et:
                        alias[v["id"]] = x["range"]
        for x in nodes:
            k = x.get("k")
            if k == "asg":
                write(x["a"], x.get("l"))
            elif k == "un" and x["op"] in ("++", "--", "p++", "p--"):
                write(x["e"], x.get("l"))
            elif k == "un" and x["op"] == "&":
                pass
            elif k == "mem":
                r.add(x["f"])
                self.rsites.setdefault((fid, x["f"]), []).append(x.get("l"))
            elif k == "ref" and x.get("dk") in ("global", "slocal"):
                gr.add(x["id"] if x["dk"] == "global" else fid + "::" + x["n"])
            elif k in ("call", "ctor"):
                n = x.get("n", "")
                short = n.rsplit("::", 1)[-1]
                tg = self.p.targets(x)
                internal = [t for t in tg if t in self.p.fn]
                for t in internal:
                    cg.add(t)
                if not internal:
                    ext.add(n)
                    rc = x.get("recv")
                    if rc is not None and (short in MUTATORS or x.get("op") in ("=", "+=", "-=", "*=", "/=", "<<", "++", "--")):
                        write(rc, x.get("l"))
                    if n in STD_MUT_FREE or x.get("op") in ("=", "+=", "-=", "<<"):
                        for a in x.get("args", [])[:3 if n in ("std::copy", "std::transform") else 1]:
                            write(a, x.get("l"))
                else:
                    # by-reference arguments to non const reference parameters (the log templates only read)
                    for t in internal:
                        if n.startswith("Log") and "::" not in n:
                            continue
                        ps = self.p.fn[t]["params"]
                        for a, pp in zip(x.get("args", []), ps):
                            ty = pp.get("ty", "")
                            if ty.endswith("&") and not ty.startswith("const"):
                                write(a, x.get("l"))
        # implicit destructor calls etc. are not considered
        self.w[fid], self.r[fid], self.gw[fid], self.gr[fid], self.cg[fid], self.ext[fid] = w, r, gw, gr, cg, ext

    def reach(self, fid):
        if fid in self._reach:
            return self._reach[fid]
        seen, todo = set(), [fid]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [y for y in self.cg.get(x, ()) if y not in seen]
        self._reach[fid] = seen
        return seen

    def reach_all(self, fids, stop=()):
        seen, todo = set(), list(fids)
        while todo:
            x = todo.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            todo += [y for y in self.cg.get(x, ()) if y not in seen]
        return seen

    def writes(self, fid):
        k = ("w", fid)
        if k not in self._tw:
            s = set()
            for g in self.reach(fid):
                s |= self.w.get(g, set())
            self._tw[k] = s
        return self._tw[k]

    def reads(self, fid):
        k = ("r", fid)
        if k not in self._tw:
            s = set()
            for g in self.reach(fid):
                s |= self.r.get(g, set())
            self._tw[k] = s
        return self._tw[k]

    def gwrites(self, fid):
        s = set()
        for g in self.reach(fid):
            s |= self.gw.get(g, set())
        return s
