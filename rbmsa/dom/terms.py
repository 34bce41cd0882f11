"""Refuting that two expressions agree: constants are propagated from a few
assignments of the inputs through both.  Operations that are not modelled make
an assignment inconclusive; nothing is ever concluded from agreement."""
import math
import zlib

from ..ir import N, cval, is_none, walk


class Unknown(Exception):
    pass


class Leaf:
    """An input, or a component of one."""

    def __init__(self, path, kind=None):
        self.path, self.kind = path, kind


class Term:
    """Result of an operation that is only known to be a function."""

    def __init__(self, op, args):
        self.op, self.args = op, args


NUMERIC = {"x", "y", "z", "w", "r", "g", "b", "a", "size", "nbytes", "secs",
           "nsecs"}
TEXT = {"name", "frame_id", "child_frame_id", "topic"}
DRAWS = 12
WORDS = ("world", "/base_link/", "#Ab C.d", "", "B", "a/b.nc", "0x", " x ")


class Values:
    """One assignment of the inputs."""

    def __init__(self, j, kinds=None, lens=None, nonneg=()):
        self.j, self.kinds, self.lens = j, kinds or {}, lens or {}
        self.nonneg = set(nonneg) | {"time"}
        self.memo, self.bound = {}, {}

    # ------------------------------------------------------------- leaves
    def number(self, path):
        h = zlib.crc32(repr(path).encode())
        f = 0.25 + (h % 997) / 1994 + 1.234567e-5
        s = 1 if h & 4096 else -1
        v = {0: 1 + f, 1: -(1 + f), 2: s * 2 * f, 3: 0.0,
             4: float(h % 7 + 1), 5: f * 1e-9, 6: 1e6 * (1 + h % 5) + f,
             7: -s * 3.5 * f,
             # one of three is zero
             8: f * (h % 3 != 0), 9: f * (h % 3 != 1), 10: f * (h % 3 != 2),
             11: 1.5}[self.j]
        return abs(v) if path[0] in self.nonneg else v

    def string(self, path):
        h = zlib.crc32(repr(path).encode())
        if self.j == 11:
            return "same"
        return WORDS[(self.j + h) % len(WORDS)]

    def co(self, v):
        """A value to calculate with."""
        if isinstance(v, Leaf):
            if v.kind == "str":
                return self.string(v.path)
            if v.kind == "int":
                return int(abs(self.number(v.path)))
            if v.kind in ("float", None):
                return self.number(v.path)
            raise Unknown(v.kind)
        if isinstance(v, Term):
            raise Unknown(v.op)
        return v

    def leaf(self, path, kind=None):
        kind = self.kinds.get(path, kind)
        if kind is None and isinstance(path[-1], str) and len(path) > 1:
            kind = "float" if path[-1] in NUMERIC else \
                "str" if path[-1] in TEXT else "object"
        elif kind is None and len(path) > 1:
            kind = "float"
        return Leaf(path, kind or "object")

    # --------------------------------------------------------- operations
    def ev(self, n):
        if n.k in self.bound:
            return self.bound[n.k]
        if n.k not in self.memo:
            try:
                self.memo[n.k] = self.op(n)
            except Unknown as e:
                self.memo[n.k] = e
            except (ArithmeticError, ValueError, TypeError, IndexError,
                    AttributeError, KeyError) as e:
                self.memo[n.k] = Unknown(f"{type(e).__name__}: {e}")
        v = self.memo[n.k]
        if isinstance(v, Unknown):
            raise v
        return v

    def op(self, n):
        op, a = n.op, n.args
        if op == "const":
            return cval(n)
        if op in ("in", "sym"):
            f = dict(n.meta[1]) if op == "in" else {}
            if "val" in f:
                return f["val"]
            return self.leaf((n.meta[0],), f.get("kind"))
        if op == "phi":
            return self.ev(a[1] if self.true(a[0]) else a[2])
        if op == "attr":
            b = self.ev(a[0])
            if isinstance(b, Leaf) and b.kind in ("object", "frame"):
                return self.leaf(b.path + (n.meta,))
            return Term("attr", (b, n.meta))
        if op == "item":
            return self.item(self.ev(a[0]), a[1])
        if op in ("tuple", "list"):
            return self.seq(a)
        if op == "isnone":
            v = self.ev(a[0])
            if v is None:
                return True
            if isinstance(v, (Leaf, Term)) and not (
                    isinstance(v, Leaf) and v.kind in ("float", "str",
                                                       "int")):
                raise Unknown("None?")
            return False
        if op == "truth":
            return bool(self.plain(self.ev(a[0])))
        if op == "not":
            return not self.true(a[0])
        if op == "cmp":
            x, y = self.ev(a[0]), self.ev(a[1])
            if n.meta == "is":
                if isinstance(x, (Leaf, Term)) or isinstance(y, (Leaf, Term)):
                    raise Unknown("is")
                return x is y
            if n.meta == "==":
                e = self.equal(x, y)
                if e is None:
                    raise Unknown("==")
                return e
            x, y = self.plain(x), self.plain(y)
            return x < y if n.meta == "<" else x <= y
        if op == "in_":
            x, y = self.plain(self.ev(a[0])), self.plain(self.ev(a[1]))
            if not isinstance(y, str):
                raise Unknown("in")
            return x in y
        if op == "fstr":
            s = ""
            for x in a:
                v = self.plain(self.ev(x))
                if not isinstance(v, (str, int)) or isinstance(v, bool):
                    raise Unknown("format")
                s += str(v)
            return s
        if op == "unop":
            v = self.plain(self.ev(a[0]))
            return {"-": lambda: -v, "+": lambda: +v,
                    "not": lambda: not v}.get(n.meta, self.no)()
        if op == "binop":
            x, y = self.plain(self.ev(a[0])), self.plain(self.ev(a[1]))
            if isinstance(x, list) or isinstance(y, list):
                return self.vector(n.meta, x, y)
            return self.scalar(n.meta, x, y)
        if op == "setattr" or op == "update":
            raise Unknown(op)
        if isinstance(n.meta, tuple) and n.meta:
            raise Unknown("named arguments")
        return self.call(op, [self.ev(x) for x in a])

    def no(self):
        raise Unknown("operator")

    def true(self, c):
        return bool(self.plain(self.ev(c)))

    def plain(self, v):
        if isinstance(v, (list, tuple)):
            return [self.plain(x) for x in v]
        v = self.co(v)
        if isinstance(v, float) and (v != v or abs(v) == math.inf):
            raise Unknown("nan")
        return v

    def scalar(self, o, x, y):
        if isinstance(x, str) != isinstance(y, str):
            raise Unknown(o)
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
                "/": lambda: x / y, "//": lambda: x // y,
                "%": lambda: x % y, "**": lambda: x ** y}.get(
                    o, self.no)()

    def vector(self, o, x, y):
        if isinstance(x, list) and isinstance(y, list):
            raise Unknown("sequences")      # may concatenate
        if isinstance(x, list):
            return [self.scalar(o, v, y) for v in x]
        return [self.scalar(o, x, v) for v in y]

    def seq(self, items):
        out = []
        for x in items:
            if isinstance(x, N) and x.op == "mapseg":
                src, e, cond = x.args
                if cond.op != "const":
                    raise Unknown("filter")
                for i, v in enumerate(self.items(self.ev(src))):
                    out.append(self.bind(src, e, v, i))
            elif isinstance(x, N) and x.op == "star":
                out += self.items(self.ev(x.args[0]))
            elif isinstance(x, N) and x.op in ("condseg", "museg", "seg"):
                raise Unknown(x.op)
            else:
                out.append(self.ev(x))
        return out

    def bind(self, src, e, v, i):
        sub = Values(self.j, self.kinds, self.lens, self.nonneg)
        sub.bound = dict(self.bound)
        for x in walk(e):
            if x.op == "elem" and x.args[0].k == src.k:
                sub.bound[x.k] = v
            if x.op == "index_of":
                raise Unknown("index")
        return sub.ev(e)

    def items(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Leaf) and v.path in self.lens:
            return [self.leaf(v.path + (i,)) for i in range(
                self.lens[v.path])]
        raise Unknown("length")

    def item(self, b, i):
        if i.op == "slice":
            lo, hi, st = (None if is_none(x) else self.plain(self.ev(x))
                          for x in i.args)
            if isinstance(b, Leaf) and b.kind == "str":
                b = self.co(b)
            if not isinstance(b, str):
                b = self.items(b)
            return b[slice(lo, hi, st)]
        k = self.plain(self.ev(i))
        if isinstance(b, Leaf):
            if b.kind == "str":
                return self.co(b)[k]
            if not isinstance(k, (int, str)) or isinstance(k, bool):
                raise Unknown("index")
            if isinstance(k, int) and k < 0:
                if b.path not in self.lens:
                    raise Unknown("negative index")
                k += self.lens[b.path]
            return self.leaf(b.path + (k,))
        if isinstance(b, Term):
            return Term("item", (b, k))
        return b[k]

    def call(self, op, a):
        if op.startswith("m:"):
            s = self.co(a[0]) if not isinstance(a[0], (Term, list)) else None
            if isinstance(s, str):
                f = op[2:]
                if f not in STR:
                    raise Unknown(op)
                return getattr(s, f)(*[self.plain(x) for x in a[1:]])
            if op in ("m:tolist", "m:copy"):
                return a[0]
            raise Unknown(op)
        if op in ("builtins.list", "builtins.tuple", "numpy.asarray",
                  "numpy.array", "numpy.asanyarray"):
            if op.startswith("numpy") and any(x is not None and
                                              x is not True for x in a[1:]):
                raise Unknown(op)
            return a[0]
        f = FUN.get(op)
        if f is None:
            raise Unknown(op)
        r = f(self, a)
        if isinstance(r, float) and (r != r or abs(r) == math.inf):
            raise Unknown("nan")
        return r

    # --------------------------------------------------------- comparison
    def equal(self, x, y, rel=1e-9, tiny=1e-12):
        """True / False / None."""
        if isinstance(x, Leaf) and isinstance(y, Leaf) and x.path == y.path:
            return True
        if isinstance(x, Time) or isinstance(y, Time):
            if not (isinstance(x, Time) and isinstance(y, Time)):
                return None
            if x.secs is None or y.secs is None:
                return x.secs is y.secs
            return abs(x.secs - y.secs) <= 5e-9 + 1e-12 * abs(y.secs) + (
                0 if abs(y.secs) < 1e5 else 1e-6)
        if isinstance(x, Term) or isinstance(y, Term):
            return None
        for a, b in ((x, y), (y, x)):
            if isinstance(a, Leaf) and a.kind not in ("float", "str", "int"):
                return None
        try:
            x, y = self.plain(x), self.plain(y)
        except Unknown:
            return None
        if isinstance(x, list) or isinstance(y, list):
            return None
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return abs(x - y) <= tiny + rel * max(abs(x), abs(y))
        return x == y


class Time:
    def __init__(self, secs):
        self.secs = secs


STR = {"lstrip", "rstrip", "strip", "lower", "upper", "replace", "ljust",
       "rjust", "zfill", "title", "capitalize", "removeprefix",
       "removesuffix", "startswith", "endswith", "split", "rsplit", "casefold",
       "center", "join", "find", "swapcase"}


def _num(f):
    return lambda s, a: f(*[_real(s.plain(x)) for x in a])


def _real(v):
    if isinstance(v, (str, bool)):
        raise Unknown("number")
    return v


def _many(f):
    def g(s, a):
        if len(a) == 1:
            return f(_real(s.plain(x)) for x in s.items(a[0]))
        return f(*[_real(s.plain(x)) for x in a])
    return g


def _sign(x):
    return (x > 0) - (x < 0)


def _round(x, n=None):
    return round(x) if n is None else round(x, n)


def _time(s, a):
    v = [_real(s.plain(x)) for x in a] + [0, 0]
    return Time(v[0] + v[1] * 1e-9)


def _len(s, a):
    return len(s.items(a[0] if not isinstance(a[0], Leaf) or
                       a[0].kind != "str" else s.co(a[0])))


FUN = {
    "builtins.abs": _num(abs), "builtins.round": _num(_round),
    "builtins.int": lambda s, a: int(*[s.plain(x) for x in a]),
    "builtins.float": _num(float), "builtins.bool":
        lambda s, a: bool(s.plain(a[0])),
    "builtins.max": _many(max), "builtins.min": _many(min),
    "builtins.sum": lambda s, a: sum(s.plain(a[0])),
    "builtins.len": _len,
    "builtins.pow": _num(pow),
    "builtins.str": lambda s, a: s.plain(a[0]) if isinstance(
        s.plain(a[0]), str) else s.no(),
    "builtins.sorted": lambda s, a: sorted(s.plain(a[0])),
    "builtins.reversed": lambda s, a: s.items(a[0])[::-1],
    "numpy.abs": _num(abs), "numpy.absolute": _num(abs),
    "numpy.fabs": _num(abs),
    "numpy.float64": _num(float), "numpy.minimum": _num(min),
    "numpy.maximum": _num(max), "numpy.floor": _num(math.floor),
    "numpy.ceil": _num(math.ceil), "numpy.sign": _num(_sign),
    "numpy.sqrt": _num(math.sqrt), "numpy.round": _num(_round),
    "numpy.rint": _num(round), "numpy.isnan": lambda s, a: False if
        _real(s.plain(a[0])) is not None else False,
    "numpy.isfinite": lambda s, a: _real(s.plain(a[0])) is not None,
    "math.isnan": lambda s, a: _real(s.plain(a[0])) is None,
    "math.isfinite": lambda s, a: _real(s.plain(a[0])) is not None,
    "numpy.clip": lambda s, a: min(max(_real(s.plain(a[0])), _real(
        s.plain(a[1]))), _real(s.plain(a[2]))),
    "numpy.linalg.norm": lambda s, a: math.sqrt(sum(
        _real(s.plain(x)) ** 2 for x in s.items(a[0]))) if all(
            x is None or x is False for x in a[1:]) else s.no(),
    "math.floor": _num(math.floor), "math.ceil": _num(math.ceil),
    "math.fabs": _num(abs), "math.sqrt": _num(math.sqrt),
    "math.copysign": _num(math.copysign), "math.fsum":
        lambda s, a: sum(s.plain(a[0])),
    "rospy.Time.from_sec": lambda s, a: Time(_real(s.plain(a[0]))),
    "rospy.rostime.Time.from_sec": lambda s, a: Time(_real(s.plain(a[0]))),
    "rospy.Time": _time, "rospy.rostime.Time": _time,
    "rospy.Time.now": lambda s, a: Time(None),
}


def _refused(env, raises):
    """May an exception be raised for the assignment?"""
    for pc in raises:
        for c, pol in pc:
            if c.op == "inloop":
                continue
            try:
                if env.true(c) != pol:
                    break
            except Unknown:
                pass
        else:
            return True
    return False


def _inputs(*ns):
    return {x.meta[0] for n in ns for x in walk(n)
            if x.op in ("in", "sym") and isinstance(x.meta, tuple)}


def _relevant(raises, *ns):
    """Conditions of exceptions that depend on what the terms depend on."""
    mine = _inputs(*ns)
    return [pc for pc in raises if mine & _inputs(*(c for c, p in pc))]


def refute(got, want, raises=(), **kw):
    """Text of an assignment under which the two differ, or None."""
    raises = _relevant(raises, got, want)
    for j in range(DRAWS):
        env = Values(j, **kw)
        try:
            x, y = env.ev(got), env.ev(want)
        except Unknown:
            continue
        if env.equal(x, y) is False and not _refused(env, raises):
            return f"{_text(env, x)} for {_text(env, y)}"
    return None


def escapes(pc, raises=(), given=(), **kw):
    """A condition of pc that does not hold under some assignment for which
    the given ones hold."""
    for c, pol in pc:
        if c.op == "inloop":
            continue
        bad = _relevant(raises, c)
        for j in range(DRAWS):
            env = Values(j, **kw)
            try:
                if env.true(c) == pol or any(env.true(x) != p
                                             for x, p in given):
                    continue
            except Unknown:
                continue
            if not _refused(env, bad):
                return c
    return None


def _text(env, v):
    if isinstance(v, Time):
        return f"time {v.secs}" if v.secs is not None else "the current time"
    return repr(env.plain(v))[:40]
