"""ROS messages read off the value-flow graph of their construction."""
import re

from ..ctx import N, const, cval, is_none, show
from ..dom import terms
from ..ir import is_const

FIELDS = {
    "Vector3": "x y z", "Point": "x y z", "Quaternion": "x y z w",
    "ColorRGBA": "r g b a", "Header": "seq stamp frame_id",
    "TransformStamped": "header child_frame_id transform",
    "Transform": "translation rotation",
    "PoseStamped": "header pose", "Pose": "position orientation",
    "TwistStamped": "header twist", "Twist": "linear angular",
    "Vector3Stamped": "header vector", "PointStamped": "header point",
    "QuaternionStamped": "header quaternion",
    "Marker": "header ns id type action pose scale color lifetime "
              "frame_locked points colors text mesh_resource "
              "mesh_use_embedded_materials",
}
PEEL = {"builtins.float", "numpy.asarray", "numpy.array", "builtins.tuple",
        "builtins.list", "numpy.asanyarray", "numpy.float64", "m:tolist"}


def ctor(n):
    """Name of the message class a node constructs, or None."""
    if n.op.startswith("m:") or "." not in n.op:
        return None
    nm = n.op.rsplit(".", 1)[1]
    return nm if nm in FIELDS and ".msg." in n.op else None


def base(n):
    while n.op == "setattr":
        n = n.args[0]
    return n


def field(I, n, path):
    for a in path.split("."):
        n = field1(I, n, a)
    return n


def field1(I, n, name):
    # a message read after the run, as opposed to when it was sent
    return part(I, I.cur(n) if getattr(I, "ended", False) else n, name)


def part(I, n, name):
    x = n
    while x.op == "setattr":
        if x.meta == name:
            return x.args[1]
        x = x.args[0]
    if x.op == "phi":
        return I.mkphi(x.args[0], part(I, x.args[1], name),
                       part(I, x.args[2], name))
    c = ctor(x)
    if c:
        names = FIELDS[c].split()
        kw = x.meta if isinstance(x.meta, tuple) else ()
        k = len(x.args) - len(kw)
        pos, named = x.args[:k], dict(zip(kw, x.args[k:]))
        if name in named:
            return named[name]
        i = names.index(name) if name in names else None
        if i is not None:
            for j, p in enumerate(pos):
                if p.op == "star":
                    return I.getitem(p.args[0], const(i - j))
                if j == i:
                    return p
    return N("attr", (x,), name)


def peel(n):
    while n.op in PEEL and n.args:
        n = n.args[0]
    if n.op == "item" and n.args[1].op == "const":
        b = peel(n.args[0])
        i = n.args[1]
        if b.op == "item" and b.args[1].op == "slice" and all(
                is_none(x) for x in b.args[1].args[:2]) and is_const(
                b.args[1].args[2], 1) or b.op == "item" and b.args[
                    1].op == "slice" and all(is_none(x)
                                             for x in b.args[1].args):
            return peel(N("item", (b.args[0], i)))
        if b.op == "item" and b.args[1].op == "slice" and isinstance(
                cval(i), int) and is_none(b.args[1].args[0]) and is_none(
                b.args[1].args[1]) and is_const(b.args[1].args[2], -1):
            return peel(N("item", (b.args[0], const(-1 - cval(i)))))
        if b.k != n.args[0].k:
            return N("item", (b, n.args[1]))
    return n


def same(n, want):
    """Does n hold the value `want`?  True / False / None."""
    n, want = peel(n), peel(want)
    if n.k == want.k:
        return True
    if n.op == "const" and want.op == "const":
        return cval(n) == cval(want)
    if known(n) and known(want):
        return False
    n = lift(n)
    if n.op == "phi":
        rs = [same(n.args[1], want), same(n.args[2], want)]
        if rs[0] == rs[1]:
            return rs[0]
        if None not in rs and free(n.args[0], rs[0] is False):
            return False
    return None


def lift(n):
    """A choice inside an item or attribute expression, outermost."""
    if n.op not in ("attr", "item"):
        return n
    for i, a in enumerate(n.args):
        a = lift(a)
        if a.op == "phi":
            b = [N(n.op, n.args[:i] + (x,) + n.args[i + 1:], n.meta)
                 for x in a.args[1:]]
            return N("phi", (a.args[0],) + tuple(b))
    return n


def free(c, pol):
    """Can the condition be `pol` for values told apart?  (An equality that
    holds can make different expressions equal, and a value that is None or
    empty has no components.)"""
    if c.op == "not":
        return free(c.args[0], not pol)
    if c.op == "cmp":
        if c.meta in ("is", "==", "in"):
            return not pol and not any(is_none(a) for a in c.args)
        if c.meta in ("is not", "!=", "not in"):
            return pol and not any(is_none(a) for a in c.args)
        return False
    if c.op == "isnone":
        return not pol and known(c.args[0])
    return c.op in ("in", "sym", "truth") and pol


def known(n):
    """A parameter or constant, or an item or attribute of one."""
    while n.op in ("attr", "item"):
        if n.op == "item" and not known(n.args[1]):
            return False
        n = n.args[0]
    return n.op in ("in", "const", "sym") or bool(ctor(n)) or \
        n.op in ("elem",)


def some(i):
    """Text if the index i selects only some of the rows."""
    n = i
    while n.op in ("m:astype", "numpy.asarray", "numpy.array"):
        n = n.args[0]
    if n.op == "slice":
        step = n.args[2]
        if step.op == "const" and cval(step) not in (None, 1, -1):
            return f"only every {cval(step)}. row"
    if n.op == "item" and is_const(n.args[1], 1) and \
            n.args[0].op == "numpy.unique" or n.op == "numpy.unique":
        return "rows that equal another one are left out"
    if n.op in ("numpy.argsort", "m:argsort", "numpy.lexsort"):
        return "rows in the order of " + show(n.args[0])[-40:]
    if n.op == "item" and is_const(n.args[1], 0):
        n = n.args[0]
    if n.op in ("numpy.nonzero", "numpy.where", "m:nonzero",
                "numpy.flatnonzero") and len(n.args) < 2:
        n = n.args[0]
    if n.op == "unop" and n.meta == "~":
        n = n.args[0]
    if possible(n):
        return f"only rows where {show(n)[:60]}"
    return None


def possible(c):
    """Can the truth of the array or number condition c go both ways?  It
    compares components of the input with a number or with each other, or
    asks whether they are finite; nothing is known about them."""
    while c.op in ("not", "truth") or c.op == "unop" and c.meta in "~-":
        c = c.args[0]
    if c.op == "phi":
        return False
    if c.op in ("numpy.any", "numpy.all", "m:any", "m:all",
                "numpy.logical_not"):
        return possible(c.args[0]) or _input(c.args[0])
    if c.op in ("and", "or", "boolop", "numpy.logical_and",
                "numpy.logical_or") or c.op == "binop" and c.meta in "&|":
        return all(possible(x) for x in c.args if isinstance(x, N))
    if c.op in ("numpy.isnan", "numpy.isfinite", "math.isnan",
                "numpy.isinf"):
        return bool(c.args) and _input(c.args[0])
    if c.op == "cmp" and c.meta in ("<", "<=", ">", ">=", "==", "!="):
        a, b = c.args
        if a.k == b.k:
            return False
        return _input(a) and (_input(b) or b.op == "const") or \
            _input(b) and a.op == "const"
    return False


def _input(n):
    """A row or component of an array that was passed, or a shift of it."""
    while True:
        if n.op in ("item", "elem", "m:item", "m:astype", "numpy.asarray",
                    "numpy.array", "numpy.abs", "numpy.linalg.norm",
                    "numpy.diff", "builtins.float", "builtins.abs",
                    "numpy.sum", "m:sum", "attr", "prev"):
            if n.op == "attr" and n.meta in ("shape", "ndim", "size",
                                             "dtype"):
                return False
            n = n.args[0]
            continue
        if n.op == "list" and len(n.args) == 1 and n.args[0].op == "mapseg":
            return True
        return n.op in ("in", "vol")


class Check:
    """Obligations on one message or value."""

    def __init__(self, rep, rule, con, I, loc=None, lens=None):
        self.rep, self.rule, self.con, self.I = rep, rule, con, I
        self.loc, self.lens = loc, lens

    def differs(self, n, want):
        """Text of an assignment of the inputs that tells them apart."""
        return terms.refute(n, want, [e.pc for e in self.I.raises],
                            lens=self.lens)

    def always(self, pc, given=()):
        """True if there are no conditions, False if some assignment of the
        inputs does not meet one, else None."""
        pc = [x for x in pc if x[0].op != "inloop"]
        if not pc:
            return True
        return False if terms.escapes(
            pc, [e.pc for e in self.I.raises], given,
            lens=self.lens) is not None else None

    def ob(self, ok, what, found="", loc=None):
        self.rep.check(ok, self.rule, f"{self.con}: {what}",
                       str(found)[:200], loc or self.loc)

    def eq(self, n, want, what):
        ok, by = same(n, want), ""
        if ok is None:
            by = self.differs(n, want)
            ok, by = (False, f" ({by})") if by else (None, "")
        self.ob(ok, what, f"is {show(n)[:100]}, specified "
                f"{show(want)[:70]}{by}", n.loc)

    def vec(self, n, want, what, names="xyz"):
        """A message with components want[0], want[1], ..."""
        for i, c in enumerate(names):
            w = want[i] if isinstance(want, (list, tuple)) else \
                self.I.getitem(want, const(i))
            self.eq(field(self.I, n, c), w, f"{what}.{c}")

    def quat(self, n, want, what):
        """A Quaternion message of the array (w, x, y, z)."""
        for i, c in enumerate("wxyz"):
            w = want[i] if isinstance(want, (list, tuple)) else \
                self.I.getitem(want, const(i))
            self.eq(field(self.I, n, c), w, f"{what}.{c}")

    def stamp(self, n, secs, what):
        """rospy.Time of `secs` seconds."""
        if n.op in ("rospy.Time.from_sec", "rospy.rostime.Time.from_sec"):
            self.eq(n.args[0], secs, what)
        elif n.op in ("rospy.Time", "rospy.rostime.Time") and (
                not n.args or is_const(n.args[0], 0)):
            self.ob(same(const(0.0), secs), what, "zero")
        elif n.op == "attr" and ctor(base(n.args[0])) or is_none(n):
            self.ob(False, what, "not set")
        elif n.op == "attr" and n.args[0].op == "attr" and ctor(
                base(n.args[0].args[0])):
            self.ob(False, what, "not set")
        else:
            by = self.differs(n, N("rospy.Time.from_sec", (secs,)))
            self.ob(False if by else None, what,
                    f"{by}: " * bool(by) + show(n)[:120])

    def text(self, n, want, what):
        if n.op == "attr" and (ctor(base(n.args[0])) or (
                n.args[0].op == "attr" and ctor(base(n.args[0].args[0])))):
            self.ob(False, what, "not set")
        else:
            self.eq(n, want, what)


# ------------------------------------------------------------- time stamps
HOLD = {"pandas.Index", "pandas.DatetimeIndex", "pandas.to_datetime",
        "numpy.asarray", "numpy.array", "numpy.asanyarray", "m:to_numpy",
        "m:copy", "pandas.Timestamp", "numpy.datetime64", "pandas.Series"}
NS = ("datetime64[ns]", "<M8[ns]", "M8[ns]")
NUM = {"builtins.float", "builtins.int", "numpy.float64", "numpy.int64"}
NUMS = {"float", "int", "float64", "int64", "i8", "f8"}


def kind_test(c, dt):
    """Truth of a test for datetime stamps, or None."""
    if c.op == "not":
        d = kind_test(c.args[0], dt)
        return None if d is None else not d
    if c.op == "const":
        return bool(cval(c))
    if c.op in ("truth", "bool"):
        return kind_test(c.args[0], dt)
    if c.op == "and_" or c.op == "or_":
        return None
    ex = [a.meta for a in c.args if a.op in ("extern", "class")
          and isinstance(a.meta, str)]
    if c.op == "isinst" or c.op.endswith("isinstance") or c.op.endswith("issubdtype"):
        if any(e.endswith(("DatetimeIndex", "datetime64", "Timestamp"))
               for e in ex):
            return dt
        if any(e.endswith(("floating", "number", "float64", "integer"))
               for e in ex):
            return not dt
    if c.op == "cmp" and c.meta == "==":
        for a, b in (c.args, c.args[::-1]):
            if a.op == "attr" and a.meta == "kind" and b.op == "const":
                return dt == (cval(b) == "M") if cval(b) in "Mfi" else None
    if c.op.endswith("hasattr"):
        return None
    return None
HALF = {"numpy.float32", "numpy.float16", "numpy.int32", "numpy.uint32"}
HALFS = {"float32", "float16", "f4", "f2", "int32", "i4"}


class Moment:
    """scale * (seconds of sample `index` of `src`), or datetime."""

    def __init__(self, src, index, scale):
        self.src, self.index, self.scale = src, index, scale


def hold(n):
    while n.op in HOLD and n.args or n.op == "attr" and n.meta in (
            "values", "data", "array") or \
            n.op == "m:astype" and is_const(n.args[1], *NS):
        n = n.args[0]
    return n


def fixed_ns(n):
    """Are the ticks of the datetimes in n nanoseconds for certain?"""
    while True:
        if n.op == "m:astype" and is_const(n.args[1], *NS):
            return True
        if n.op in HOLD and n.args or n.op in ("elem", "item", "m:view") \
                or n.op == "attr" and n.meta in ("values", "data", "array"):
            n = n.args[0]
        else:
            return False


def cut(n):
    """Part of a sequence, from or up to a sample other than its ends."""
    return n.op == "item" and n.args[1].op == "slice" and any(
        not is_none(x) and not is_const(x, 0) for x in n.args[1].args[:2])


SEEN = {}       # index expressions by key


def token(i):
    """Identity of an index expression."""
    if i.op == "index_of" and i.args[0].op == "elem":
        return ("loop", i.args[0].meta)
    if i.op == "elem":
        it = i.args[0]
        if it.op in ("range", "builtins.range") or it.op == "seg" or \
                it.op == "numpy.arange":
            return ("loop", i.meta)
    SEEN[i.k] = i
    return ("at", i.k)


def sample(n):
    """(sequence, index token) of one sample, or None."""
    n = hold(n)
    if n.op == "elem":
        return hold(n.args[0]), ("loop", n.meta)
    if n.op == "item":
        return hold(n.args[0]), token(n.args[1])
    return None


def moment(n, dt, whole=False):
    """Moment of a stamp expression, an error text, or None."""
    op = n.op
    if whole and known(hold(n)):
        return Moment(hold(n), None, None if dt else 1.0)
    if op == "phi":
        d = kind_test(n.args[0], dt)
        return None if d is None else moment(n.args[1 if d else 2], dt,
                                             whole)
    if op in ("item", "elem") and not whole and not known(hold(n.args[0])):
        # a sample of the converted stamps
        m = moment(n.args[0], dt, True)
        if isinstance(m, Moment) and m.index is None:
            m.index = token(n.args[1]) if op == "item" else (
                "loop", n.meta)
        if m is not None:
            return m
    if op == "binop" and n.meta == "-":
        a, b = (moment(x, dt, w) for x, w in zip(n.args, (whole, False)))
        if isinstance(a, Moment) and isinstance(b, Moment) and \
                a.src.k == b.src.k and n.args[1].op == "item":
            return f"relative to {show(n.args[1])[-40:]}"
        return None
    if op == "binop" and n.meta == "//" or op in (
            "numpy.floor", "numpy.round", "numpy.rint", "numpy.trunc",
            "builtins.round", "m:round"):
        a = moment(n.args[0], dt, whole)
        if not isinstance(a, Moment) or a.scale is None:
            return None if not isinstance(a, str) else a
        u, b = a.scale, n.args[-1]
        if op == "binop":
            if b.op != "const" or not isinstance(cval(b), (int, float)):
                return None
            u = u / cval(b)
        elif len(n.args) > 1 and not is_none(b):
            if b.op != "const" or not isinstance(cval(b), int):
                return None
            u = u * 10. ** cval(b)
        # whole multiples of 1 / u seconds
        return f"only to {1 / u:g} seconds" if u < 9e8 else None
    if op == "binop" and n.meta in ("/", "*"):
        a, b = n.args
        if n.meta == "*" and a.op == "const":
            a, b = b, a
        m = moment(a, dt, whole)
        if not isinstance(m, Moment):
            return m
        if b.op in ("numpy.timedelta64", "pandas.Timedelta"):
            return None
        if b.op != "const" or not isinstance(cval(b), (int, float)):
            return None
        if m.scale is None:
            return "a datetime is divided by a number"
        v = cval(b)
        return Moment(m.src, m.index, m.scale / v if n.meta == "/"
                      else m.scale * v)
    if op in ("m:astype", "m:view", "numpy.float64", "builtins.float",
              "builtins.int") or op == "m:item" and len(n.args) == 1:
        m = moment(n.args[0], dt, whole)
        if not isinstance(m, Moment) or m.scale is not None:
            return m
        if op == "m:astype" or op == "m:view":
            t = n.args[1]
            if is_const(t, *NS):
                if dt and op == "m:view" and not fixed_ns(n.args[0]):
                    return "ticks of stamps of any resolution taken for ns"
                return m
            if t.op == "extern" and t.meta in HALF or \
                    t.op == "const" and cval(t) in HALFS:
                return "numbers of seconds rounded to 32 bits"
            u = t.op == "const" and isinstance(cval(t), str) and re.match(
                r"(datetime64|<?M8)\[(\w+)\]$", cval(t))
            if u and dt and u[2] in ("us", "ms", "s", "m", "h", "D"):
                return f"stamps are cut to whole {u[2]}"
            if not (t.op == "extern" and t.meta in NUM or
                    t.op == "const" and cval(t) in NUMS):
                return None
        if dt and not fixed_ns(n.args[0]):
            return "ticks of stamps whose resolution is not fixed"
        return Moment(m.src, m.index, 1e9 if dt else 1.0)
    if op in ("m:timestamp", "m:total_seconds"):
        m = moment(n.args[0], dt, whole)
        return Moment(m.src, m.index, 1.0) if isinstance(m, Moment) and \
            m.scale is None else None
    s = None if whole else sample(n)
    if s is None:
        if op in HOLD:
            return moment(n.args[0], dt, whole)
        return None
    return Moment(s[0], s[1], None if dt else 1.0)


def seconds(n, src, tok, dt):
    """Is n the stamp `tok` of `src` in seconds?  (verdict, text)."""
    m = moment(n, dt)
    if isinstance(m, str):
        return False, m
    if m is None:
        if n.op == "const":
            return False, f"is {cval(n)!r}"
        return None, show(n)[:120]
    if m.scale is None:
        return False, "a datetime is used as seconds"
    if abs(m.scale - 1) > 1e-12:
        return False, f"is {m.scale:g} times the stamp in seconds"
    if m.src.op == "numpy.unique" and hold(m.src.args[0]).k == src.k:
        return False, "stamps that equal another one are left out"
    if m.src.k != src.k:
        return (False if known(m.src) or cut(m.src) else None), \
            f"stamps of {show(m.src)}"
    if tok is not None and m.index != tok:
        return False, f"stamp of another sample ({m.index} for {tok})"
    return True, "stamp of the sample in seconds"


def stamp_secs(n):
    """Argument of rospy.Time.from_sec, or None."""
    if n.op in ("rospy.Time.from_sec", "rospy.rostime.Time.from_sec"):
        return n.args[0]
    return None


def reached(pc, hyp):
    """Is a path condition satisfied under hyp(cond) -> bool | None?"""
    out = True
    for c, pol in pc:
        if c.op == "inloop":
            continue
        d = hyp(c)
        if d is None:
            out = None if out else out
        elif d != pol:
            return False
    return out


def record(I, tag, a, k):
    """Note a call; notes of repeated passes over a loop are dropped with
    the other calls of the pass."""
    I.calls.append(("rec:" + tag, (list(a), dict(k)), I.loc,
                    tuple(I.stack), I.st.pc))


def recorded(I, tag):
    return [(c[1][0], c[1][1], c[4], c[2]) for c in I.calls
            if c[0] == "rec:" + tag]
