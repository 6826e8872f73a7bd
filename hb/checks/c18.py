"""C18: files are released on every path, and a failing operation is told to the caller.

Every function that uses a data file is evaluated down to the library's calls, once without a
failure and once for every call failing (in turn, with several reasons). Afterwards the file has
to be closed exactly once, the caller must have got `false` or an exception, and no exception
may have left a destructor, which would end the process. Streams are treated alike: an opening,
a writing or a closing that fails must not be answered with success."""
from .. import vals as V
from ..vals import mk, num, nat, TRUE, FALSE, NULL
from ..vn import Tries
from ..model import World
from ..ncfile import File, hook, integer, NOTVAR, NOTATT
from ..ir import Broken, fn_nodes
from .c17 import given

ASSUMPTIONS = ["A call of the netCDF library that fails answers with a status other than zero; a failing close releases the identifier all the same; a failing stream operation leaves the stream in a failed state until it is cleared.",
               "Each execution has one failing operation."]
CODES = [-33, -61, -101, 28]
SIZES = [(2, 2, 1, 1, 1), (2, 1, 2, 2, 0)]


class Watched(World):
    """takes note of exceptions that leave a destructor"""
    escaped = None

    streams = None

    def e_ctor(self, e):
        if self.streams is not None and "basic_ofstream" in (e.get("ty") or ""):
            args = [self.rv(a) for a in e.get("args", [])]
            if args:
                self.streams.opened = not self.streams.op("opening")
            return mk("obj", "stream", self.streams.n)
        return World.e_ctor(self, e)

    def e_throw(self, e):
        for k, fr in enumerate(self.frames):
            if fr.fn is not None and "::~" in fr.fn.get("n", ""):
                tr = self.tries[-1] if getattr(self, "tries", None) else None
                if tr is None or tr.frames <= k:
                    self.escaped = fr.fn["n"]
        return World.e_throw(self, e)


def attempt(w, f, this, args):
    """result, and whether an exception reached the caller"""
    w.tries.append(Tries())
    try:
        r = w.inline(f, this, args)
    finally:
        got = w.tries.pop()
    left = [x for x in got if w.throws[x[2]] is not None]
    return r, bool(left)


def followed(w, file, r, thrown):
    return not file.unclear and (thrown or r.k in ("true", "false") or r in (TRUE, FALSE))


def released(ctx, rule, ti, where, w, file):
    ctx.check(not file.bad and file.closed == file.opened, "released", ti, where, "%s: the file is opened %d times and closed %d times%s" % (ti, file.opened, file.closed, "; " + "; ".join(file.bad[:2]) if file.bad else ""))
    ctx.check(w.escaped is None, "destructor", ti, where, "%s: an exception leaves %s, which ends the process" % (ti, w.escaped))


def method(p, name):
    fs = [f for f in p.by_name.get(name, []) if f.get("body")]
    if not fs:
        raise Broken("%s not found" % name)
    return fs


def writing(ctx, sizes, part, parts):
    f = method(ctx.prog, "ResultWriter::WriteNetCDF")[0]
    args = [V.string("folder")] + given(sizes)
    where = ctx.at(f)
    if len(args) != len(f["params"]):
        raise Broken("ResultWriter::WriteNetCDF has other parameters")
    box = [None]
    w = Watched(ctx, hooks={"call": hook(box)})
    w.maxloop = 40
    s0 = w.st.copy()
    k, total = 0, None
    while total is None or k <= total:
        for code in CODES if k else CODES[:1]:
            if k % parts != part and k:
                continue
            w.st, w.escaped = s0.copy(), None
            V.reset_budget()
            file = box[0] = File(w, fail=k, code=code)
            r, thrown = attempt(w, f, w.new("ResultWriter"), args)
            if k == 0:
                total = len(file.calls)
                ti = "writing %s" % (sizes,)
            else:
                ti = "writing %s, call %d fails (%s, %d)" % (sizes, k, file.failed and file.failed[0], code)
            if file.unclear or not (thrown or r in (TRUE, FALSE)):
                ctx.und("reported", where, "%s: %s %s" % (ti, V.show(r)[:60], file.unclear[:2]))
                if k == 0:
                    return
                continue
            if k == 0:
                ctx.check(r is TRUE and not thrown, "reported", ti, where, "%s: results are not written though nothing fails" % ti)
            else:
                ctx.check(thrown or r is FALSE, "reported", ti, where, "%s: the caller is told that the results were written" % ti)
            released(ctx, "released", ti, where, w, file)
        k += 1


# ------------------------------------------------------------------ the operations on their own
TEXTY = ("string",)


def argument(w, p, i):
    ty = p["ty"]
    if "vector<double>" in ty or "vector<int>" in ty or "vector<float>" in ty:
        if "Array" in ty:
            pass
        return mk("vec", num(1), num(2))
    if "Array<double, -1, 1>" in ty:
        v = mk("vec", nat(("name", "x0")), nat(("name", "x1")))
        return mk("vec", v, v) if "vector" in ty else v
    if "Array<double, -1, -1>" in ty:
        v = mk("vec", mk("vec", nat(("name", "x0")), nat(("name", "x1"))), mk("vec", nat(("name", "x2")), nat(("name", "x3"))))
        return mk("vec", v, v) if "vector" in ty else v
    if "vector<std::basic_string" in ty:
        return mk("vec", V.string("a"), V.string("b"))
    if "basic_string" in ty or "char" in ty:
        return V.string("name%d" % i)
    if ty.strip() == "bool":
        return TRUE
    return num(1)


class Loose(File):
    """every call succeeds, or fails, whatever it is about"""

    def answer(self, n, args):
        if n == "nc_strerror":
            return V.string("the reason")
        if n == "nc_free_string":
            return num(0)
        if self.w.st.pc is FALSE:
            return num(0)
        self.calls.append((n, args))
        k = len(self.calls)
        if n == "nc_close":
            self.closed += 1
        if n in ("nc_open", "nc_create") and k != self.fail:
            self.opened += 1
        if k == self.fail:
            self.failed = (n, args)
            return num(self.code)
        for a in args[1:] if n not in ("nc_open", "nc_create") else args[2:]:
            if a.k == "addr" and a.a[0].k == "loc" and a.a[0].a[0] != "ve":
                self.w.st.s[a.a[0]] = num(1) if n not in ("nc_open", "nc_create") else num(7)
        return num(0)


def operations(ctx, f):
    """each call that a method of the file class makes, failing"""
    name = f["n"].split("::", 1)[1]
    where = ctx.at(f)
    box = [None]
    w = Watched(ctx, hooks={"call": hook(box)})
    w.maxloop = 12
    o = w.new("FileNetcdf")
    opener = method(ctx.prog, "FileNetcdf::OpenReadOnly")[0]
    if name not in ("OpenReadOnly", "Create"):
        box[0] = Loose(w)
        attempt(w, opener, o, [V.string("file")])
        if box[0].opened != 1:
            ctx.und("reported", where, "%s: opening a file is not followed" % name)
            return
    s0 = w.st.copy()
    args = [argument(w, p, i) for i, p in enumerate(f["params"])]
    answers = name.startswith("Has")
    variants = [args]
    if any("basic_string" in p["ty"] and "vector" not in p["ty"] for p in f["params"]) and name not in ("OpenReadOnly", "Create"):
        last = max(i for i, p in enumerate(f["params"]) if "basic_string" in p["ty"])
        if last:
            variants.append(args[:last] + [V.string("")] + args[last + 1:])
    for args in variants:
        k = 1
        while k < 60:
            made = 0
            for code in CODES + [NOTVAR, NOTATT]:
                w.st, w.escaped = s0.copy(), None
                V.reset_budget()
                file = box[0] = Loose(w, fail=k, code=code)
                r, thrown = attempt(w, f, o, list(args))
                made = max(made, len(file.calls))
                if file.failed is None:
                    break
                n = file.failed[0]
                ti = "%s(%s), %s fails (%d)" % (name, ", ".join(V.show(a)[:20] for a in args), n, code)
                absent = answers and (n == "nc_inq_varid" and code == NOTVAR or n == "nc_inq_att" and code == NOTATT)
                if absent and r is FALSE and not thrown:
                    ctx.ok("reported", where, ti)
                elif answers and n == "nc_inq_att" and code != NOTATT or answers and name == "HasVar" and code != NOTVAR:
                    # "there may be one": reading it fails in turn
                    ctx.check(thrown or r is TRUE, "reported", ti, where, "%s: an error is taken for the absence of the item" % ti)
                elif f.get("ret", "").strip() == "bool":
                    ctx.check(thrown or r is FALSE, "reported", ti, where, "%s: the caller is told that it succeeded" % ti)
                else:
                    ctx.check(thrown, "reported", ti, where, "%s: the caller is not told" % ti)
                ctx.check(w.escaped is None, "destructor", ti, where, "%s: an exception leaves %s, which ends the process" % (ti, w.escaped))
                if n == "nc_close":
                    # what the destructor does afterwards
                    d = w.destructor("FileNetcdf")
                    before = file.closed
                    if d is not None and thrown:
                        s1 = w.st
                        w.st = s0.copy() if w.st.pc is FALSE else w.st
                        w.st = s1
            if file.failed is None:
                break
            k += 1


def reading(ctx, fname):
    """each operation of the file class failing in a function that reads a file"""
    f = method(ctx.prog, fname)[0]
    where = ctx.at(f)
    names = []
    state = {}

    def call(ev, e, n, recv, args, tgt):
        w = ev
        if n.startswith("nc_"):
            return state["file"].call(n, args)
        if n.startswith(("std::filesystem::is_directory", "std::filesystem::exists")):
            return TRUE
        if not n.startswith("FileNetcdf::") or "~" in n or n.endswith("::FileNetcdf") or n.endswith("CheckNcStatus"):
            return None
        op = n.split("::", 1)[1]
        if op in ("Close",):
            return None
        if w.st.pc is not TRUE:
            state["file"].unclear.append("whether %s is called depends on %s" % (op, V.show(w.st.pc)[:80]))
        state["n"] += 1
        names.append(op)
        if state["n"] == state["fail"]:
            state["failed"] = op
            if state["how"] == "false" and op in ("OpenReadOnly", "Create"):
                return FALSE
            return w.e_throw({"ty": "RuntimeError", "l": e.get("l")}) or num(0)
        if op in ("OpenReadOnly", "Create"):
            return None          # down to the library
        if op == "HasAtt" or op == "HasVar":
            return TRUE if state["has"] else FALSE
        if op == "GetAttString1D":
            return mk("vec", V.string("ground"), V.string("glacier"))
        if op == "GetAttText":
            return V.string("ground")
        if op in ("GetDimLen",):
            return num(2)
        if op == "GetDimId":
            return num(1 if args and args[0].k == "str" and args[0].a[0] == "time" else 0)
        if op == "GetVariableCount":
            return num(3)
        if op == "GetVarName":
            return V.string(state["vars"][integer(args[0])])
        if op == "GetVarDimIds":
            return mk("vec", num(state["first"]), num(1 - state["first"]))
        if op == "GetVarInt1D":
            return mk("vec", num(4), num(9))
        if op == "GetVarDouble1D":
            return mk("vec", num(58849), num(58850)) if args[0].k == "str" and args[0].a[0] == "time" else mk("vec", nat(("name", "p0")), nat(("name", "p1")))
        if op == "GetVarDouble2D":
            return mk("vec", *[mk("vec", nat(("name", "v%d0" % i)), nat(("name", "v%d1" % i))) for i in range(2)])
        return None

    cases = [("id", "time", "precipitation")] if "TimeSeries" in fname else [("id", "area", "elevation")]
    for vars_ in cases:
        for has in (True, False):
            for first in (0, 1):
                k, total = 0, None
                while total is None or k <= total:
                    for how in ("throw", "false") if k == 1 else ("throw",):
                        w = Watched(ctx, hooks={"call": call})
                        w.maxloop = 20
                        V.reset_budget()
                        state.update(n=0, fail=k, failed=None, how=how, vars=vars_, has=has, first=first, file=File(w))
                        del names[:]
                        this = None if f.get("static") else w.new(fname.rsplit("::", 1)[0])
                        args = [V.string("file")] + [mk("vec")] * (len(f["params"]) - 1)
                        r, thrown = attempt(w, f, this, args)
                        file = state["file"]
                        ti = "%s, %s first%s%s" % (fname, ("units", "time")[first], "" if has else ", without attributes", ", call %d fails (%s, %s)" % (k, state["failed"], how) if k else "")
                        if k == 0:
                            total = len(names)
                        if file.unclear or not (thrown or r in (TRUE, FALSE)):
                            ctx.und("reported", where, "%s: %s %s %s" % (ti, V.show(r)[:60], file.unclear[:2], names[-3:]))
                            if k == 0:
                                break
                            continue
                        if k == 0:
                            ctx.check(r is TRUE and not thrown, "reported", ti, where, "%s: a good file is refused (%s)" % (ti, w.thrown[:2]))
                        else:
                            ctx.check(thrown or r is FALSE, "reported", ti, where, "%s: the caller is told that the file was read" % ti)
                        released(ctx, "released", ti, where, w, file)
                    k += 1


# ------------------------------------------------------------------ streams
class Streams:
    def __init__(self, w, fail):
        self.w, self.fail, self.n, self.bad, self.failed = w, fail, 0, False, None
        self.unclear, self.opened = [], False

    def op(self, what):
        if self.w.st.pc is not TRUE:
            self.unclear.append("whether a stream is used depends on %s" % V.show(self.w.st.pc)[:80])
        self.n += 1
        if self.n == self.fail:
            self.bad, self.failed = True, what
        return self.bad

    def call(self, ev, e, n, recv, args, tgt):
        if n.startswith(("std::filesystem::is_directory", "std::filesystem::exists")):
            return TRUE
        last = n.rsplit("::", 1)[-1]
        if n.startswith("std::basic_ofstream<char>::open"):
            self.opened = not self.op("opening")
            return num(0)
        if n.startswith("std::basic_ofstream<char>::") or n.startswith(("std::basic_ostream<char>::", "std::basic_ios<char>::", "std::operator<<", "std::ios_base")):
            if last == "is_open":
                return V.TRUE if self.opened else FALSE
            if last.startswith("operator<<") or last in ("write", "put", "flush"):
                self.op("writing")
                return recv if recv is not None else args[0]
            if last == "close":
                self.op("closing")
                return num(0)
            if last in ("fail", "bad", "operator!"):
                return TRUE if self.bad else FALSE
            if last in ("good",) or last.startswith("operator bool"):
                return FALSE if self.bad else TRUE
            if last == "exceptions":
                self.unclear.append("the stream throws")
        if n.startswith(("LogError", "LogMessage", "LogWarning", "LogDebug")):
            return num(0)
        return None


def stream(ctx):
    fs = [f for f in ctx.prog.by_name.get("ResultWriter::WriteCSV", []) if f.get("body")]
    if not fs:
        ctx.ok("streams", "core/src/base", "no table of results is written")
        return
    f = fs[0]
    where = ctx.at(f)
    args = [V.string("folder"), mk("vec", nat(("name", "t0")), nat(("name", "t1"))), mk("vec", V.string("a"), V.string("b")),
            mk("vec", *[mk("vec", nat(("name", "x%d" % i)), nat(("name", "y%d" % i))) for i in range(2)])]
    k, total = 0, None
    while total is None or k <= total:
        box = []
        w = Watched(ctx, hooks={"call": lambda *a: box[0].call(*a)})
        box.append(Streams(w, k))
        w.streams = box[0]
        V.reset_budget()
        r, thrown = attempt(w, f, w.new("ResultWriter"), list(args))
        s = box[0]
        ti = "a table of results%s" % (", operation %d fails (%s)" % (k, s.failed) if k else "")
        if k == 0:
            total = s.n
        if s.unclear or not (thrown or r in (TRUE, FALSE)) or k == 0 and total < 10:
            ctx.und("streams", where, "%s: %s %s" % (ti, V.show(r)[:60], s.unclear[:2]))
            if k == 0:
                return
        elif k == 0:
            ctx.check(r is TRUE and not thrown, "streams", ti, where, "%s: not written though nothing fails" % ti)
        else:
            ctx.check(thrown or r is FALSE, "streams", ti, where, "%s: the caller is told that it was written" % ti)
        k += 1


def run(ctx):
    ctx.rule("released", "a file that was opened is closed exactly once, whichever call fails")
    ctx.rule("reported", "when a call of the library fails, the caller gets false or an exception")
    ctx.rule("destructor", "no exception leaves a destructor")
    ctx.rule("streams", "a table that could not be opened, written or closed is not reported as written")
    p = ctx.prog
    if "FileNetcdf" not in p.cls:
        raise Broken("class FileNetcdf not found")
    for s in SIZES:
        for i in range(4):
            ctx.each("reported", "writing %s" % (s,), writing, ctx, s, i, 4)
    for f in sorted(p.fn.values(), key=lambda f: (f["file"], f["l"])):
        if f.get("cls") == "FileNetcdf" and f.get("body") and not f["n"].endswith("::FileNetcdf") and "~" not in f["n"] and not f["n"].endswith("CheckNcStatus"):
            ctx.each("reported", f["n"], operations, ctx, f)
    readers = {}
    for f in p.fn.values():
        if f.get("cls") != "FileNetcdf" and f.get("body") and any(x.get("k") == "call" and (x.get("n") or "").startswith("FileNetcdf::Open") for x in fn_nodes(f)):
            readers[f["n"]] = f
    if not readers:
        raise Broken("no function opens a file for reading")
    for n in sorted(readers):
        ctx.each("reported", n, reading, ctx, n)
    # nothing uses the library past the file class
    for f in p.fn.values():
        if f.get("body") and f.get("cls") != "FileNetcdf":
            for x in fn_nodes(f):
                if x.get("k") == "call" and (x.get("n") or "").startswith("nc_"):
                    ctx.und("reported", ctx.at(f), "%s uses the library directly" % f["n"])
    ctx.each("streams", "ResultWriter::WriteCSV", stream, ctx)
    ctx.flush()
