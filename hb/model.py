"""Models put together through the public interface: settings, basin, builder, processor.
The structure is fixed; forcing, contents and areas may stay symbolic."""
import datetime
from fractions import Fraction
from . import vals as V
from .vals import mk, obj, num, nat, NULL, TRUE, FALSE
from .bench import Bench, Missing

CT = "ContentType::"


def mjd(text):
    """the modified Julian date of an ISO date; reading dates is not what these scenes are about"""
    try:
        d = datetime.datetime.fromisoformat(text)
    except ValueError:
        return None
    return Fraction(int((d - datetime.datetime(1858, 11, 17)).total_seconds()), 86400)


def conv(x):
    if isinstance(x, bool):
        return V.boolean(x)
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    if isinstance(x, str):
        return mk("enum", x) if "::" in x else V.string(x)
    if isinstance(x, (list, tuple)):
        return mk("vec", *[conv(y) for y in x])
    return x


class World(Bench):
    precise_try = True
    recursion = 4
    maxloop = 400

    def __init__(self, ctx, **kw):
        kw.setdefault("depth", 30)
        hooks = dict(kw.pop("hooks", None) or {})
        mine = hooks.get("call")

        def call(ev, e, n, recv, args, tgt):
            if n == "ParseDate" and args and args[0].k == "str":
                d = mjd(args[0].a[0])
                if d is not None:
                    return num(self.rounded(d))
            if n == "GetTimeStructFromMJD" and args and args[0].k == "num" and V.p_isconst(args[0].a[0]):
                t = self.date_struct(V.p_constval(args[0].a[0]))
                if t is not None:
                    return t
            if n == "StringsMatch" and len(args) == 2 and all(a.k == "str" for a in args):
                return V.boolean(args[0].a[0].upper() == args[1].a[0].upper())
            if n == "GetMJD" and args and all(a.k == "num" and V.p_isconst(a.a[0]) for a in args):
                x = [int(V.p_constval(a.a[0])) for a in args]
                try:
                    d = datetime.datetime(*(x + [1] * (3 - len(x))))
                except (ValueError, TypeError):
                    return None
                return num(self.rounded(Fraction(int((d - datetime.datetime(1858, 11, 17)).total_seconds()), 86400)))
            return mine(ev, e, n, recv, args, tgt) if mine else None

        self.ieee = kw.pop("ieee", False)
        super().__init__(ctx, opaque=kw.pop("opaque", ()), **kw)
        self.hooks = dict(hooks, call=call)
        self.settings = self.new("SettingsModel")
        self.basin = self.new("SettingsBasin")

    def rounded(self, d):
        """a date as computed from the seconds since 1970, with doubles when they are rounded"""
        return Fraction(40587.0 + float((d - 40587) * 86400) / 86400.0) if self.ieee else d

    def date_struct(self, days):
        """the parts of a date"""
        c = self.p.cls.get("Time")
        if not c or not 0 <= days < 10 ** 6:
            return None
        d = datetime.datetime(1858, 11, 17) + datetime.timedelta(seconds=round(float(days * 86400)))
        o = self.new("Time")
        got = {"year": d.year, "month": d.month, "day": d.day, "hour": d.hour, "min": d.minute, "sec": d.second}
        for f in c["fields"]:
            k = f["q"].rsplit("::", 1)[-1]
            if k not in got:
                return None
            self.st.s[mk("loc", "f", o, f["q"])] = num(got[k])
        return o

    def s(self, name, *a):
        return self.m(self.settings, name, *[conv(x) for x in a])

    def b(self, name, *a):
        return self.m(self.basin, name, *[conv(x) for x in a])

    def seen_ok(self, r):
        return self.isok(r) if r.k != "bool" else r
