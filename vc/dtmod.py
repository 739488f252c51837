"""The datetime model: an instant is a whole number of microseconds since 1970, a timedelta a whole number of them."""
import datetime as _dt
from fractions import Fraction
import z3
from . import core, loader
from .core import S, E, Unsupported, mk, raw, iraw, num

US = {"days": 86400 * 10 ** 6, "seconds": 10 ** 6, "microseconds": 1, "milliseconds": 1000, "minutes": 60 * 10 ** 6,
      "hours": 3600 * 10 ** 6, "weeks": 7 * 86400 * 10 ** 6}
EPOCH = _dt.datetime(1970, 1, 1)
PARTS = ("year", "month", "day", "hour", "minute", "second", "microsecond")


def _whole(x):
    """a count of microseconds: rounded to the nearest, ties to even"""
    if isinstance(x, Fraction):
        return round(x)
    if isinstance(x, (bool, int)):
        return int(x)
    t = raw(x)
    if z3.is_int(t):
        return t
    s = z3.simplify(t)
    if z3.is_rational_value(s):
        return round(Fraction(s.numerator_as_long(), s.denominator_as_long()))
    r = E.fresh("us")
    E.assume(z3.And(2 * z3.ToReal(r) - 2 * t <= 1, 2 * t - 2 * z3.ToReal(r) <= 1,
                    z3.Implies(z3.Or(2 * z3.ToReal(r) - 2 * t == 1, 2 * t - 2 * z3.ToReal(r) == 1), r % 2 == 0)))
    return r


def _add(a, b):
    return a + b if isinstance(a, int) and isinstance(b, int) else iraw(a) + iraw(b)


def _cmp(op):
    def f(self, o):
        if type(o) is not type(self):
            if op in ("==", "!="):
                return op == "!="
            return NotImplemented
        a, b = self.us, o.us
        if isinstance(a, int) and isinstance(b, int):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        a, b = iraw(a), iraw(b)
        return mk({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op])
    return f


class _Ord:
    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = (_cmp(o) for o in ("<", "<=", ">", ">=", "==", "!="))

    def __hash__(self):
        if isinstance(self.us, int):
            return hash(self.us)
        raise Unsupported("symbolic time used as a hash key")

    def subst(self, pairs):
        return self._of(self.us if isinstance(self.us, int) else z3.substitute(self.us, *pairs))

    def merge_with(self, c, o):
        if type(o) is not type(self):
            raise Unsupported("mixed times")
        return self._of(z3.If(c, iraw(self.us), iraw(o.us)))


class timedelta(_Ord):
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        tot = 0
        for nm, v in dict(days=days, seconds=seconds, microseconds=microseconds, milliseconds=milliseconds,
                          minutes=minutes, hours=hours, weeks=weeks).items():
            if isinstance(v, (int, Fraction)) and v == 0:
                continue
            if not (core.is_num(v) or isinstance(v, S)):
                raise Unsupported("timedelta of %r" % (v,))
            tot = tot + v * US[nm]
        self.us = _whole(tot)

    @classmethod
    def _of(cls, us):
        r = object.__new__(cls)
        r.us = us if isinstance(us, int) else z3.simplify(us)
        return r

    def total_seconds(self):
        return Fraction(self.us, 10 ** 6) if isinstance(self.us, int) else mk(z3.ToReal(self.us) / 10 ** 6)

    def _m(self):
        return self.us if isinstance(self.us, int) else mk(self.us)

    @property
    def days(self):
        return self.us // US["days"] if isinstance(self.us, int) else mk(self.us / US["days"])

    @property
    def seconds(self):
        d = US["days"]
        return self.us % d // 10 ** 6 if isinstance(self.us, int) else mk((self.us % d) / 10 ** 6)

    @property
    def microseconds(self):
        return self.us % 10 ** 6 if isinstance(self.us, int) else mk(self.us % 10 ** 6)

    def __add__(self, o):
        if isinstance(o, timedelta):
            return self._of(_add(self.us, o.us))
        return NotImplemented

    def __neg__(self):
        return self._of(-self.us if isinstance(self.us, int) else -self.us)

    def __sub__(self, o):
        return self + (-o) if isinstance(o, timedelta) else NotImplemented

    def __mul__(self, k):
        if not (core.is_num(k) or isinstance(k, S)):
            return NotImplemented
        return self._of(_whole(self._m() * k))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            return mk(z3.ToReal(iraw(self.us)) / z3.ToReal(iraw(o.us))) if not (
                isinstance(self.us, int) and isinstance(o.us, int)) else Fraction(self.us, o.us)
        return self._of(_whole((self._m() if isinstance(self.us, S) else Fraction(1) * self._m()) / o))


def civil(part):
    """calendar component of an instant (uninterpreted but for the time of day)"""
    return z3.Function("civil!" + part, z3.IntSort(), z3.IntSort())


DAYS = z3.Function("civil!days", *([z3.IntSort()] * 4))


def component(us, part):
    """component of an instant, us microseconds since 1970"""
    if isinstance(us, int):
        return getattr(EPOCH + _dt.timedelta(microseconds=us), part)
    d = us % US["days"]
    if part == "hour":
        return d / US["hours"]
    if part == "minute":
        return (d % US["hours"]) / US["minutes"]
    if part == "second":
        return (d % US["minutes"]) / 10 ** 6
    if part == "microsecond":
        return d % 10 ** 6
    day = z3.simplify(us / US["days"])
    y, m, dd = (civil(p)(day) for p in ("year", "month", "day"))
    E.assume(z3.And(DAYS(y, m, dd) == day, m >= 1, m <= 12, dd >= 1, dd <= 31))
    E.assumed["calendar"] = "year, month and day of an instant determine its day number"
    return {"year": y, "month": m, "day": dd}[part]


class datetime(_Ord):
    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        if tzinfo is not None:
            raise Unsupported("time zone")
        v = [x.item() if hasattr(x, "item") else x for x in (year, month, day, hour, minute, second, microsecond)]
        v = [int(x) if isinstance(x, Fraction) and x.denominator == 1 else x for x in v]
        if all(isinstance(x, int) for x in v):
            self.us = (_dt.datetime(*v) - EPOCH) // _dt.timedelta(microseconds=1)
            return
        for x in v:
            if isinstance(x, Fraction) or (isinstance(x, S) and not z3.is_int(x.t)) or not (core.is_num(x) or isinstance(x, S)):
                raise TypeError("integer expected in datetime()")
        t = [iraw(x) for x in v]
        E.need("datetime(): hour, minute, second, microsecond in range",
               z3.And(*[z3.And(a >= 0, a < b) for a, b in zip(t[3:], (24, 60, 60, 10 ** 6))]))
        if all(isinstance(x, int) for x in v[:3]):
            days = z3.IntVal((_dt.datetime(*v[:3]) - EPOCH).days)
        else:
            days = DAYS(*t[:3])
            if v[1:3] == [1, 1]:
                from . import text
                E.assume(z3.Implies(t[0] >= 1, days == text.year_start(t[0])))
        self.us = z3.simplify(days * US["days"] + t[3] * US["hours"] + t[4] * US["minutes"] + t[5] * 10 ** 6 + t[6])

    @classmethod
    def _of(cls, us):
        r = object.__new__(cls)
        r.us = us if isinstance(us, int) else z3.simplify(us)
        return r

    def __getattr__(self, a):
        if a in PARTS:
            r = component(self.us, a)
            return r if isinstance(r, int) else mk(r)
        if a.startswith("__"):
            raise AttributeError(a)
        if isinstance(self.__dict__.get("us"), int) and a in ("strftime", "isoformat", "timetuple", "weekday", "toordinal"):
            return getattr(self.real(), a)
        if a in ("strftime", "isoformat"):
            from . import text
            return lambda *x, **k: getattr(text, a)(self, *x, **k)
        raise Unsupported("datetime.%s" % a)

    def real(self):
        return EPOCH + _dt.timedelta(microseconds=self.us)

    def replace(self, **k):
        v = {p: getattr(self, p) for p in PARTS}
        v.update(k)
        return datetime(*[v[p] for p in PARTS])

    def __add__(self, o):
        return self._of(_add(self.us, o.us)) if isinstance(o, timedelta) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return self + (-o)
        if isinstance(o, datetime):
            return timedelta._of(_add(self.us, -o.us))
        return NotImplemented

    @staticmethod
    def strptime(s, f):
        if isinstance(s, str) and isinstance(f, str):
            d = _dt.datetime.strptime(s, f)
            return datetime._of((d - EPOCH) // _dt.timedelta(microseconds=1))
        from . import text
        if isinstance(s, text.Text) and isinstance(f, str):
            return text.strptime(s, f)
        raise Unsupported("strptime of a symbolic string")

    @staticmethod
    def now(*a):
        raise Unsupported("the current time")
    utcnow = today = fromtimestamp = now


class Iso:
    """an instant written out"""
    def __init__(self, t):
        self.t = t

    def subst(self, pairs):
        return Iso(self.t.subst(pairs))


class Timestamp:
    """a pandas instant: nanoseconds since 1970"""
    def __init__(self, ns):
        self.ns = ns if isinstance(ns, int) else z3.simplify(iraw(ns))

    def to_pydatetime(self, warn=True):
        return datetime._of(self.ns // 1000 if isinstance(self.ns, int) else self.ns / 1000)

    def isoformat(self):
        return Iso(self)

    def subst(self, pairs):
        return Timestamp(self.ns if isinstance(self.ns, int) else z3.substitute(self.ns, *pairs))

    def __getattr__(self, a):
        if a.startswith("__") or a == "ns":
            raise AttributeError(a)
        raise Unsupported("Timestamp.%s" % a)

    def __eq__(self, o):
        raise Unsupported("comparison of Timestamps")
    __lt__ = __le__ = __gt__ = __ge__ = __ne__ = __eq__
    __hash__ = object.__hash__


class DatetimeModule:
    datetime, timedelta = datetime, timedelta

    def __getattr__(self, a):
        raise Unsupported("datetime.%s" % a)


loader.MODELS["datetime"] = DatetimeModule()


class Dt:
    """the .dt accessor of an array of nanoseconds since 1970"""
    def __init__(self, da):
        self.da = da

    def __getattr__(self, a):
        if a not in PARTS:
            raise Unsupported(".dt.%s" % a)
        arr = self.da.to_arr()
        from .arr import Arr, I8

        def el(*k):
            v = arr.elem(*k)
            t = v // 1000 if isinstance(v, int) else raw(v) / 1000
            r = component(t, a)
            return r if isinstance(r, int) else mk(r)
        from .xrmod import DataArray, Var
        return DataArray(Var(Arr(arr.shape, el, I8), self.da.dims), a)
