"""Text of known layout: characters, digits whose value is symbolic, printed numbers and words of any length."""
import string
import z3
from . import core, seq
from .core import S, E, Unsupported, mk, raw, iraw

DIGITS = frozenset("0123456789")
ALNUM = frozenset(string.ascii_letters + string.digits + "-")
NUMBER = frozenset(string.digits + "+-.eEinfaINFA")


class Digit:
    """one decimal digit"""
    alphabet, fixed = DIGITS, True

    def __init__(self, t):
        self.t = t


class Num:
    """a number printed in as many characters as it needs"""
    alphabet, fixed = NUMBER, False

    def __init__(self, v, whole):
        self.v, self.whole = v, whole


class Word:
    """a word of letters, digits and hyphens, at least one"""
    alphabet, fixed = ALNUM, False

    def __init__(self, name):
        self.name = name


class Stamp:
    """an instant written by isoformat()"""
    alphabet, fixed = frozenset(string.digits + "-:.T"), False

    def __init__(self, t):
        self.t = t


class Opaque:
    """text nothing is known about"""
    alphabet, fixed = frozenset(string.printable), False


def lit(p):
    return isinstance(p, str)


def pieces(x):
    if isinstance(x, Text):
        return list(x.p)
    if isinstance(x, str):
        return list(x)
    raise Unsupported("text and %s" % type(x).__name__)


def text(*xs):
    """joined, an ordinary string where nothing in it is symbolic"""
    p = [q for x in xs for q in (pieces(x) if isinstance(x, (str, Text)) else [x])]
    return "".join(p) if all(lit(q) for q in p) else Text(p)


def digits(n, width):
    """name of `width` digits, most significant first"""
    ts = [z3.Int("%s%d" % (n, i)) for i in range(width)]
    for t in ts:
        E.assume(z3.And(t >= 0, t <= 9))
    return [Digit(t) for t in ts]


def value(ds):
    """the number a run of digits stands for"""
    r = z3.IntVal(0)
    for d in ds:
        r = r * 10 + (z3.IntVal(int(d)) if lit(d) else d.t)
    return z3.simplify(r)


def digit(p):
    return isinstance(p, Digit) or (lit(p) and p in DIGITS)


class Text:
    vc_str = True

    def __init__(self, p):
        self.p = p

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("str.%s of symbolic text" % a)

    def _no(self, *a, **k):
        raise Unsupported("symbolic text used as an ordinary string")
    __str__ = __fspath__ = __format__ = __lt__ = __le__ = __gt__ = __ge__ = __iter__ = __mod__ = _no
    __repr__ = lambda self: "".join(q if lit(q) else "{%s}" % type(q).__name__ for q in self.p)

    def _clear(self, pat):
        """pat can only be found among the literal characters"""
        before = ""
        for q in self.p:
            if lit(q):
                before += q
                continue
            if pat[0] in q.alphabet or any(before.endswith(pat[:k]) and pat[k] in q.alphabet for k in range(1, len(pat))):
                raise Unsupported("search for %r in symbolic text" % pat)
            before = ""

    def _find(self, pat):
        self._clear(pat)
        n, out, i = len(pat), [], 0
        while i + n <= len(self.p):
            if all(lit(q) and q == c for q, c in zip(self.p[i:i + n], pat)):
                out.append(i)
                i += n
            else:
                i += 1
        return out

    def split(self, sep=None, maxsplit=-1):
        if maxsplit != -1 or not (sep is None or (isinstance(sep, str) and sep)):
            raise Unsupported("split")
        if sep is None:
            out, cur = [], []
            for q in self.p:
                if lit(q) and q.isspace():
                    if cur:
                        out.append(text(*cur))
                    cur = []
                else:
                    cur.append(q)
            return seq.TList(out + ([text(*cur)] if cur else []))
        out, last = [], 0
        for i in self._find(sep):
            out.append(text(*self.p[last:i]))
            last = i + len(sep)
        return seq.TList(out + [text(*self.p[last:])])

    def replace(self, a, b, count=-1):
        if count != -1 or not isinstance(a, str) or not a:
            raise Unsupported("replace")
        out, last = [], 0
        for i in self._find(a):
            out += self.p[last:i] + pieces(b)
            last = i + len(a)
        return text(*(out + self.p[last:]))

    def partition(self, sep):
        at = self._find(sep)
        if not at:
            return self, "", ""
        return text(*self.p[:at[0]]), sep, text(*self.p[at[0] + len(sep):])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _strip(self, chars, left, right):
        ok = (lambda q: q.isspace()) if chars is None else (lambda q: q in chars)
        p = list(self.p)
        for on, end in ((left, 0), (right, -1)):
            while on and p and lit(p[end]) and ok(p[end]):
                p.pop(end)
            if on and p and not lit(p[end]) and chars is not None and any(x in p[end].alphabet for x in chars):
                raise Unsupported("strip of symbolic text")
        return text(*p)

    def startswith(self, pre):
        if isinstance(pre, tuple):
            return any(self.startswith(x) for x in pre)
        return self._agrees(self.p, pre)

    def endswith(self, post):
        if isinstance(post, tuple):
            return any(self.endswith(x) for x in post)
        return self._agrees(self.p[::-1], post[::-1])

    def _agrees(self, p, s):
        for i, ch in enumerate(s):
            if i >= len(p):
                return False
            if not lit(p[i]):
                if ch in p[i].alphabet:
                    raise Unsupported("comparison of symbolic text with %r" % s)
                return False
            if p[i] != ch:
                return False
        return True

    def __contains__(self, pat):
        return bool(self._find(pat))

    def find(self, pat):
        at = self._find(pat)
        if at and not all(lit(q) or q.fixed for q in self.p[:at[0]]):
            raise Unsupported("find in symbolic text")
        return at[0] if at else -1

    def _cut(self, i, default):
        """position among the pieces of character position i"""
        if i is None:
            return default
        if isinstance(i, S):
            raise Unsupported("symbolic position in text")
        fixed = lambda q: lit(q) or q.fixed
        if i >= 0:
            if not all(fixed(q) for q in self.p[:i]):
                raise Unsupported("position in text of unknown length")
            return min(i, len(self.p))
        if not all(fixed(q) for q in self.p[i:]):
            raise Unsupported("position in text of unknown length")
        return max(len(self.p) + i, 0)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("step in text")
            return text(*self.p[self._cut(k.start, 0):self._cut(k.stop, len(self.p))])
        if isinstance(k, int):
            j = self._cut(k, 0)
            if j >= len(self.p):
                raise IndexError("string index out of range")
            if not lit(self.p[j]) and not self.p[j].fixed:
                raise Unsupported("position in text of unknown length")
            return text(self.p[j])
        raise Unsupported("text key")

    def vc_len(self):
        if not all(lit(q) or q.fixed for q in self.p):
            raise Unsupported("length of symbolic text")
        return len(self.p)

    def __add__(self, o):
        return text(self, o) if isinstance(o, (str, Text)) else NotImplemented

    def __radd__(self, o):
        return text(o, self) if isinstance(o, str) else NotImplemented

    def join(self, xs):
        return join(self, xs)

    def to_int(self):
        p = self.strip().p
        if len(p) == 1 and isinstance(p[0], Num):
            if not p[0].whole:
                raise Unsupported("int() of text that may have a fraction")
            return mk(iraw(p[0].v))
        if all(digit(q) for q in p):
            return mk(value(p))
        raise Unsupported("int() of symbolic text")

    def to_float(self):
        p = self.strip().p
        if len(p) == 1 and isinstance(p[0], Num):
            return mk(core.to_real(mk(raw(p[0].v))))
        if all(digit(q) for q in p):
            return mk(z3.ToReal(value(p)))
        raise Unsupported("float() of symbolic text")

    def same(self, o):
        """shown to be the same text"""
        q = pieces(o)
        if len(q) != len(self.p):
            return False
        return all(a is b or (lit(a) and lit(b) and a == b) or
                   (isinstance(a, Digit) and isinstance(b, Digit) and a.t.eq(b.t)) for a, b in zip(self.p, q))

    def __eq__(self, o):
        if not isinstance(o, (str, Text)):
            return False
        if self.same(o):
            return True
        raise Unsupported("comparison of symbolic text")

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported("symbolic text used as a hash key")

    def subst(self, pairs):
        def one(q):
            if isinstance(q, Num):
                return Num(core.subst(q.v, pairs), q.whole)
            if isinstance(q, Digit):
                return Digit(z3.substitute(q.t, *pairs))
            return q
        return Text([one(q) for q in self.p])


def join(sep, xs):
    xs = list(xs)
    out = []
    for i, x in enumerate(xs):
        out += ([sep] if i else []) + [x]
    return text(*out)


def fmt(s, *a, **k):
    """s.format(...) where s may be anything"""
    if not isinstance(s, str) or not any(symbolic(x) for x in list(a) + list(k.values())):
        return s.format(*a, **k)
    out, auto = [], 0
    for before, field, spec, conv in string.Formatter().parse(s):
        out.append(before)
        if field is None:
            continue
        if field == "":
            field, auto = str(auto), auto + 1
        if field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            raise Unsupported("format field %r" % field)
        out.append(piece(v, spec, conv))
    return text(*out)


def symbolic(v):
    from . import dtmod
    return isinstance(v, Text) or (isinstance(v, dtmod.datetime) and not isinstance(v.us, int))


def piece(v, spec, conv):
    plain = conv in (None, "s", -1)
    if isinstance(v, Text):
        return v if plain and not spec else Text([Opaque()])
    if symbolic(v):
        return strftime(v, spec) if plain and spec else Text([Opaque()])
    if isinstance(v, S):
        return Text([Opaque()])
    if conv not in (None, -1):
        v = {"s": str, "r": repr, "a": ascii}[conv if isinstance(conv, str) else chr(conv)](v)
    return format(v, spec or "")


def fstr(*parts):
    return text(*[p if isinstance(p, str) else piece(p[0], p[2], p[1]) if symbolic(p[0]) else native(*p) for p in parts])


def native(v, conv, spec):
    if conv != -1:
        v = {"s": str, "r": repr, "a": ascii}[chr(conv)](v)
    return format(v, spec)


def percent(s, a):
    xs = a if isinstance(a, tuple) else (a,)
    if not any(isinstance(x, Text) for x in xs):
        return s % a
    out, xs = [], list(xs)
    for d in directives(s):
        if isinstance(d, str):
            out.append(d)
        elif d[1] in "sd" and xs:
            v = xs.pop(0)
            out.append(v if isinstance(v, Text) and d[1] == "s" else native(v, -1, "d" if d[1] == "d" else ""))
        else:
            raise Unsupported("%% formatting of symbolic text")
    if xs:
        raise TypeError("not all arguments converted during string formatting")
    return text(*out)


def strmethod(obj, name, *a, **k):
    """obj.format(...) and obj.join(...)"""
    if isinstance(obj, str):
        if name == "format":
            return fmt(obj, *a, **k)
        if name == "join" and len(a) == 1:
            xs = a[0] if isinstance(a[0], (list, tuple, str)) else list(a[0])
            return join(obj, xs) if any(isinstance(x, Text) for x in xs) else obj.join(xs)
    return getattr(obj, name)(*a, **k)


# ---- calendar
def leap(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def year_start(y):
    """days from 1970 to the first day of year y"""
    p = y - 1
    return 365 * p + p / 4 - p / 100 + p / 400 - 719162


def year_length(y):
    return 365 + z3.If(leap(y), 1, 0)


def instant(Y, j, h, m, s, us=0):
    """microseconds since 1970"""
    return ((((year_start(Y) + j - 1) * 24 + h) * 60 + m) * 60 + s) * 10 ** 6 + us


WIDTH = {"Y": 4, "j": 3, "H": 2, "M": 2, "S": 2, "m": 2, "d": 2}


def directives(f):
    out, i = [], 0
    while i < len(f):
        if f[i] == "%" and i + 1 < len(f):
            if f[i + 1] == "%":
                out.append("%")
            else:
                out.append(("%", f[i + 1]))
            i += 2
        else:
            out.append(f[i])
            i += 1
    return out


def strptime(s, f):
    from . import dtmod
    got, p = {}, list(s.p)
    for d in directives(f):
        if isinstance(d, str):
            if not p or not lit(p[0]) or p[0] != d:
                raise Unsupported("strptime literal")
            p.pop(0)
            continue
        if d[1] == "f":
            n = 0
            while n < len(p) and n < 6 and digit(p[n]):
                n += 1
            if n == 0 or n < len(p):
                raise Unsupported("strptime fraction")
            got["f"] = value(p[:n]) * 10 ** (6 - n)
            p = []
            continue
        w = WIDTH.get(d[1])
        if w is None or d[1] in got:
            raise Unsupported("strptime %%%s" % d[1])
        if len(p) < w or not all(digit(q) for q in p[:w]):
            raise Unsupported("strptime field width")
        got[d[1]] = value(p[:w])
        p = p[w:]
    if p:
        raise ValueError("unconverted data remains")
    Y = got.get("Y")
    if Y is None or "j" not in got or "m" in got or "d" in got:
        raise Unsupported("strptime without day of year")
    h, m, sec = (got.get(x, z3.IntVal(0)) for x in "HMS")
    E.need("strptime: fields in range", z3.And(Y >= 1, got["j"] >= 1, got["j"] <= year_length(Y), h < 24, m < 60, sec < 60))
    return dtmod.datetime._of(instant(Y, got["j"], h, m, sec, got.get("f", 0)))


def strftime(t, f):
    """t is a datetime; four-digit years"""
    tab = E.ghost.setdefault("civil_digits", {})
    key = t.us.get_id()
    if key not in tab:
        ds = {k: [Digit(E.fresh("dg_" + k)) for _ in range(w)] for k, w in (("Y", 4), ("j", 3), ("H", 2), ("M", 2), ("S", 2))}
        ds["f"] = [Digit(E.fresh("dg_f")) for _ in range(6)]
        for q in ds.values():
            for d in q:
                E.assume(z3.And(d.t >= 0, d.t <= 9))
        v = {k: value(q) for k, q in ds.items()}
        E.need("strftime: four-digit year", z3.And(t.us >= instant(z3.IntVal(1000), 1, 0, 0, 0), t.us < instant(z3.IntVal(10000), 1, 0, 0, 0)))
        E.assume(z3.And(v["j"] >= 1, v["j"] <= year_length(v["Y"]), v["H"] < 24, v["M"] < 60, v["S"] < 60, v["Y"] >= 1000,
                        t.us == instant(v["Y"], v["j"], v["H"], v["M"], v["S"], v["f"])))
        E.assumed["calendar fields"] = "every instant of the years 1000 to 9999 has a year, day of year, hour, minute, second and microsecond"
        tab[key] = (ds, t.us)
    ds = tab[key][0]
    out = []
    for d in directives(f):
        if isinstance(d, str):
            out.append(d)
        elif d[1] in ds:
            out += ds[d[1]]
        else:
            raise Unsupported("strftime %%%s" % d[1])
    return text(*out)


def isoformat(t):
    tab = E.ghost.setdefault("stamps", {})
    return Text([tab.setdefault(t.us.get_id(), Stamp(t))])
