"""Time lines: which stamps, restricted by which bounds, and how data is
brought onto them.

Abstract values
  ("T", x)                 the (ascending) stamps of element x
  ("R", x, bounds)         those stamps of x that satisfy all bounds
  ("U", {x...})            the sorted union of stamps
  ("first", x) ("last", x) end points; ("inf", +-1)
  ("max", S) ("min", S)    of a set of end points
  ("mask", x, bounds)      comparison of the stamps of x with bounds;
                           a bound is (op, scalar), op in >= > <= <
  ("lo"/"hi", x, bounds)   positions found by searchsorted
  ("none",)
"""
from ..ir import N, cval, is_none

PEEL = {"m:astype", "numpy.asarray", "numpy.array", "m:copy", "m:to_numpy",
        "numpy.asanyarray", "numpy.atleast_1d", "numpy.ascontiguousarray",
        "numpy.copy", "numpy.sort", "m:view", "m:squeeze", "numpy.squeeze"}
CAT = {"numpy.concatenate", "numpy.hstack", "numpy.append"}
SWAP = {">=": "<=", "<=": ">=", ">": "<", "<": ">"}


class Unknown(Exception):
    pass


def is_int(n, v):
    return n.op == "const" and cval(n) == v and not isinstance(cval(n), bool)


class Times:
    def __init__(self, names, I=None):
        """names: {node key of a stamps array: element name}"""
        self.names = names
        self.memo = {}
        self.I = I

    def ev(self, n):
        if n.k in self.memo:
            r = self.memo[n.k]
            if isinstance(r, Unknown):
                raise r
            return r
        try:
            r = self._ev(n)
        except Unknown as e:
            self.memo[n.k] = e
            raise
        self.memo[n.k] = r
        return r

    def try_ev(self, n):
        try:
            return self.ev(n)
        except Unknown:
            return None

    def _ev(self, n):
        op = n.op
        if n.k in self.names:
            return ("T", self.names[n.k])
        if op == "const":
            v = cval(n)
            if v is None:
                return ("none",)
            if isinstance(v, float) and v in (float("inf"), float("-inf")):
                return ("inf", 1 if v > 0 else -1)
            raise Unknown(f"constant {v!r}")
        if op == "extern" and n.meta in ("numpy.inf", "numpy.Inf", "math.inf"):
            return ("inf", 1)
        if op == "unop" and n.meta == "-":
            v = self.ev(n.args[0])
            if v[0] == "inf":
                return ("inf", -v[1])
            raise Unknown("negation")
        if op == "phi":
            a, b = self.try_ev(n.args[1]), self.try_ev(n.args[2])
            if a is not None and a == b:
                return a
            raise Unknown("alternatives")
        if op == "numpy.sort":
            v = self.merge(n)
            return ("U", v[2]) if v[:2] == ("M", "sorted set") else v
        if op in PEEL:
            return self.ev(n.args[0])
        if op in ("numpy.nanmax", "numpy.nanmin"):
            op = "numpy." + op[-3:]
        if op in ("numpy.max", "numpy.amax", "builtins.max", "m:max",
                  "numpy.maximum", "numpy.fmax", "numpy.maximum.reduce"):
            return self.extreme("max", n)
        if op in ("numpy.min", "numpy.amin", "builtins.min", "m:min",
                  "numpy.minimum", "numpy.fmin", "numpy.minimum.reduce"):
            return self.extreme("min", n)
        if op in ("numpy.unique", "numpy.union1d", "builtins.sorted",
                  "builtins.set", "builtins.frozenset") or op in CAT:
            v = self.merge(n)
            if v[0] == "M":
                if v[1] == "set":
                    raise Unknown("unsorted set")
                return v if v[1] != "sorted set" else ("U", v[2])
            return v
        if op == "cmp":
            return self.compare(n)
        if op == "binop" and n.meta in ("&", "*") or op in (
                "numpy.logical_and", "numpy.bitwise_and", "numpy.multiply"):
            a, b = self.ev(n.args[0]), self.ev(n.args[1])
            if a[0] == b[0] == "mask" and a[1] == b[1]:
                return ("mask", a[1], a[2] | b[2])
            raise Unknown("conjunction")
        if op in ("unop",) and n.meta == "~" or op in (
                "numpy.logical_not", "numpy.invert"):
            a = self.ev(n.args[0])
            if a[0] == "mask" and len(a[2]) == 1:
                (o, s), = a[2]
                neg = {">=": "<", "<": ">=", ">": "<=", "<=": ">"}
                return ("mask", a[1], frozenset([(neg[o], s)]))
            if a[0] == "negmask":
                return ("mask", a[1], a[2])
            raise Unknown("negated mask")
        if op == "binop" and n.meta == "|" or op == "numpy.logical_or":
            a, b = self.ev(n.args[0]), self.ev(n.args[1])
            neg = {">=": "<", "<": ">=", ">": "<=", "<=": ">"}
            if a[0] in ("mask", "negmask") and b[0] in ("mask", "negmask") \
                    and a[1] == b[1]:
                out = frozenset()
                for m in (a, b):
                    if m[0] == "negmask":
                        out |= m[2]
                    elif len(m[2]) == 1:
                        (o, s), = m[2]
                        out |= {(neg[o], s)}
                    else:
                        raise Unknown("disjunction")
                return ("negmask", a[1], out)
            raise Unknown("disjunction")
        if op == "item":
            return self.item(n)
        if op in ("numpy.extract", "numpy.compress"):
            return self.select(self.ev(n.args[1]), self.ev(n.args[0]))
        if op == "numpy.take":
            return self.select(self.ev(n.args[0]), self.ev(n.args[1]))
        if op in ("numpy.nonzero", "numpy.flatnonzero", "numpy.argwhere") or (
                op == "numpy.where" and (len(n.args) == 1 or
                                         is_none(n.args[1]))):
            return self.ev(n.args[0])
        if op == "numpy.searchsorted":
            x = self.ev(n.args[0])
            v = self.ev(n.args[1])
            side = n.args[2] if len(n.args) > 2 else None
            s = cval(side) if side is not None and side.op == "const" \
                else "left"
            if x[0] == "T":
                return ("pos", x[1], s, v)
            raise Unknown("searchsorted")
        if op in ("m:nonzero",):
            return self.ev(n.args[0])
        raise Unknown(f"{op}")

    def scalar_set(self, kind, v):
        if v[0] == kind:
            return set(v[1])
        if v[0] == "inf":
            if (kind == "max") == (v[1] < 0):
                return set()
        return {v}

    def extreme(self, kind, n):
        args = [a for a in n.args if not is_none(a)]
        if n.op.startswith("numpy.") and n.op.rsplit(".", 1)[1] in (
                "max", "min", "amax", "amin", "reduce"):
            args = args[:1]
        xs = []
        for a in args:
            it = self.items(a)
            if it is not None:
                xs += it
            else:
                xs.append(self.ev(a))
        out = set()
        for v in xs:
            if v[0] in ("T", "R", "U"):
                v = ("last" if kind == "max" else "first",
                     v[1] if v[0] == "T" else v)
            out |= self.scalar_set(kind, v)
        if not out:
            raise Unknown("empty extreme")
        return out.pop() if len(out) == 1 else (kind, frozenset(out))

    def items(self, n):
        """Abstract values of a concrete sequence, or None."""
        if n.op in ("list", "tuple", "set"):
            out = []
            for a in n.args:
                if a.op in ("mapseg", "condseg", "star"):
                    raise Unknown("open sequence")
                out.append(self.ev(a))
            return out
        if n.op in ("numpy.array", "numpy.asarray", "numpy.stack",
                    "builtins.list", "builtins.tuple", "numpy.hstack"):
            return self.items(n.args[0])
        if n.op in ("phi", "item"):
            return None
        return None

    def merge(self, n):
        """("M", how, elements): how the stamps of several elements are put
        together; the order and repetitions of a single element's stamps are
        those of a time line."""
        op = n.op
        if op == "numpy.sort" or op == "builtins.sorted":
            v = self.merge(n.args[0])
            if v[0] == "M":
                return ("M", "sorted set" if "set" in v[1] else "sorted",
                        v[2])
            return v
        if op in ("builtins.set", "builtins.frozenset"):
            v = self.merge(n.args[0])
            return ("M", "set" if v[0] == "M" else "sorted set",
                    v[2] if v[0] == "M" else self.parts([v]))
        if op == "numpy.unique":
            v = self.merge(n.args[0])
            if v[0] == "R":
                return v
            return ("M", "sorted set", v[2] if v[0] == "M" else
                    self.parts([v]))
        if op in CAT:
            parts = []
            for a in (n.args[:1] if op in (
                    "numpy.concatenate", "numpy.hstack") else n.args[:2]):
                it = self.items(a)
                parts += it if it is not None else [self.ev(a)]
            return self.glued("concatenated", parts)
        if op == "numpy.union1d":
            parts = []
            for a in n.args[:2]:
                v = self.merge(a)
                parts.append(("U", v[2]) if v[0] == "M" else v)
            return ("M", "sorted set", self.parts(parts))
        if op in PEEL:
            return self.merge(n.args[0])
        if op in ("list", "tuple", "set"):
            it = self.items(n)
            if it is not None:
                return self.glued("set" if op == "set" else "concatenated",
                                  it)
        return self.ev(n)

    def glued(self, how, parts):
        els = self.parts(parts)
        if len(parts) == 1 and len(els) == 1:
            return ("T", min(els))
        return ("M", how, els)

    @staticmethod
    def parts(parts):
        s = set()
        for p in parts:
            if p[0] == "T":
                s.add(p[1])
            elif p[0] == "U":
                s |= p[1]
            else:
                raise Unknown("union of restricted stamps")
        return frozenset(s)

    def compare(self, n):
        op = n.meta
        if op not in SWAP:
            raise Unknown(f"comparison {op}")
        a, b = self.ev(n.args[0]), self.ev(n.args[1])
        if b[0] in ("T", "R", "U"):
            a, b, op = b, a, SWAP[op]
        if b[0] in ("T", "R", "U") or a[0] not in ("T", "R", "U"):
            raise Unknown("comparison operands")
        if a[0] == "U":
            raise Unknown("comparison of merged stamps")
        return ("mask", a[1], self.bounds(op, b))

    def bounds(self, op, b):
        if b[0] == "inf":
            if (b[1] < 0) == (op in (">=", ">")):
                return frozenset()
            raise Unknown("empty selection")
        if b[0] == "max" and op in (">=", ">") or \
                b[0] == "min" and op in ("<=", "<"):
            return frozenset((op, x) for x in b[1])
        return frozenset([(op, b)])

    def select(self, x, m):
        if x[0] in ("T", "R") and m[0] == "mask" and x[1] == m[1]:
            have = x[2] if x[0] == "R" else frozenset()
            el = x[1] if x[0] == "T" else x
            new = frozenset(b for b in m[2] if b not in (
                (">=", ("first", el)), ("<=", ("last", el))))
            return self.canon(("R", x[1], have | new))
        if x[0] in ("T", "R") and m[0] == "mask":
            return ("mis", x[1], m[1])
        raise Unknown("selection")

    def item(self, n):
        i = n.args[1]
        if n.args[0].op in ("numpy.nonzero", "numpy.where") and is_int(i, 0):
            return self.ev(n.args[0])
        if n.args[0].op in ("tuple", "list") and i.op == "const" and \
                isinstance(cval(i), int) and \
                -len(n.args[0].args) <= cval(i) < len(n.args[0].args) and \
                all(isinstance(x, N) and x.op not in (
                    "mapseg", "condseg", "museg", "star")
                    for x in n.args[0].args):
            return self.ev(n.args[0].args[cval(i)])
        x = self.ev(n.args[0])
        if i.op == "tuple" and len(i.args) == 1:
            i = i.args[0]
        if x[0] in ("T", "R", "U"):
            el = x[1] if x[0] == "T" else x
            if is_int(i, 0):
                return ("first", el)
            if is_int(i, -1) or self.lastpos(i, n.args[0]):
                return ("last", el)
        if i.op == "slice":
            lo, hi, st = i.args
            if not is_none(st) and not is_int(st, 1):
                raise Unknown("stride")
            b = frozenset()
            for p, low in ((lo, True), (hi, False)):
                if is_none(p) or low and is_int(p, 0):
                    continue
                p, off = self.shifted(p)
                v = self.ev(p)
                if v[0] != "pos" or x[0] not in ("T",) or v[1] != x[1]:
                    raise Unknown("slice")
                if off:
                    b |= {(f"position {off:+d} from {'>' if low else '<'}",
                           v[3])}
                    continue
                op = {(True, "left"): ">=", (True, "right"): ">",
                      (False, "left"): "<", (False, "right"): "<="}[
                          low, v[2]]
                b |= self.bounds(op, v[3])
            if not b:
                return x
            return self.canon(("R", x[1], b))
        if i.op == "const":
            raise Unknown("constant index")
        return self.select(x, self.ev(i))

    @staticmethod
    def shifted(p):
        """A position moved by a constant."""
        off = 0
        while p.op == "binop" and p.meta in ("+", "-"):
            a, b = p.args
            if p.meta == "+" and a.op == "const":
                a, b = b, a
            if b.op != "const" or not isinstance(cval(b), int):
                break
            off += cval(b) if p.meta == "+" else -cval(b)
            p = a
        return p, off

    def lastpos(self, i, arr):
        return i.op == "binop" and i.meta == "-" and \
            i.args[0].op == "builtins.len" and \
            i.args[0].args[0].k == arr.k and is_int(i.args[1], 1)

    # ------------------------------------------------------------ canonical
    @staticmethod
    def canon(v):
        """Without bounds that hold anyway (own end points)."""
        if v is None:
            return None
        if v[0] == "R":
            b = frozenset((o, s) for o, s in v[2] if not (
                o == ">=" and s == ("first", v[1]) or
                o == "<=" and s == ("last", v[1])))
            return ("T", v[1]) if not b else ("R", v[1], b)
        return v


def describe(v):
    if v is None or isinstance(v, str):
        return v or "?"
    if v[0] == "none":
        return "no stamps"
    if v[0] == "T":
        return f"stamps of {v[1]}"
    if v[0] == "M":
        return f"{v[1]} stamps of " + ", ".join(sorted(v[2]))
    if v[0] == "U":
        return "merged stamps of " + ", ".join(sorted(v[1]))
    if v[0] == "R":
        return f"stamps of {v[1]} with " + " and ".join(sorted(
            f"{o} {describe(s)}" for o, s in v[2]))
    if v[0] in ("first", "last"):
        return f"{v[0]}({v[1] if isinstance(v[1], str) else describe(v[1])})"
    if v[0] in ("max", "min"):
        return v[0] + "(" + ", ".join(sorted(map(describe, v[1]))) + ")"
    if v[0] == "mis":
        return f"stamps of {v[1]} selected by a mask over {v[2]}"
    return str(v)


# ------------------------------------------------------------------ resampling
class Use:
    """One place where data of an element enters the result."""

    def __init__(self, how, name, attr, times, out, node, detail="",
                 cond=()):
        self.how, self.name, self.attr = how, name, attr
        self.times, self.out, self.node = times, out, node
        self.detail, self.cond = detail, cond
        self.times_node = self.inner = None
        self.blank = False


DATA_PEEL = PEEL | {"quaternion.as_quat_array", "quaternion.as_float_array",
                    "numpy.swapaxes", "numpy.moveaxis", "m:swapaxes",
                    "numpy.expand_dims", "numpy.transpose"}


TRANSPARENT = DATA_PEEL | {
    "binop", "unop", "tuple", "list", "op:rotate", "op:qinv", "op:qmul",
    "numpy.cross", "numpy.zeros", "numpy.ones", "numpy.concatenate",
    "numpy.stack", "quaternion.rotate_vectors", "quaternion.quaternion",
    "numpy.zeros_like", "numpy.empty", "numpy.negative", "numpy.add",
    "numpy.subtract", "numpy.multiply", "numpy.divide", "numpy.matmul",
    "quaternion.derivative", "numpy.gradient", "m:conjugate", "numpy.reshape",
    "numpy.broadcast_to", "numpy.dot", "numpy.einsum", "update"}
SAME = {"numpy.array_equal", "numpy.all", "m:all", "m:equals",
        "builtins.all", "numpy.array_equiv", "numpy.allclose", "quant"}


def mentions_equality(conds):
    """Some condition compares whole arrays or object identity."""
    seen = set()
    st = [c for c, p in conds if isinstance(c, N)]
    while st:
        n = st.pop()
        if n.k in seen or len(seen) > 5000:
            continue
        seen.add(n.k)
        if n.op in SAME or n.op == "cmp" and n.meta in ("is", "is not"):
            return True
        st.extend(a for a in n.args if isinstance(a, N))
    return False


def is_updated(cond):
    return any(c == "updated" for c, p in cond)


def is_opaque(cond):
    return any(c == "opaque" for c, p in cond)


class Resampling:
    """Walks a result and collects how each element's data got there.

    data: {node key: (element name, attr)};  times: Times
    """

    def __init__(self, data, times):
        self.data, self.times = data, times
        self.uses = []
        self.starts = {}
        self.problems = []
        self.seen = set()

    def base(self, n):
        while n.k not in self.data:
            if n.op in DATA_PEEL and n.args:
                n = n.args[0]
            elif n.op == "phi":
                a, b = self.base(n.args[1]), self.base(n.args[2])
                if a is not None and a == b:
                    return a
                return None
            else:
                return None
        return self.data[n.k]

    def tsrc(self, n):
        v = self.times.try_ev(n)
        return v

    def pair(self, a, b):
        """The two time lines that meet, without what is done to the stamps
        of both alike; and what is done to only one of them."""
        def bare(n):
            while n.op in PEEL and n.op != "numpy.sort":
                n = n.args[0]
            return n

        def known(op, x):
            if op in "+-":
                return self.times.try_ev(x)
            return x.k if x.op == "const" else None

        def moves(n):
            return n.op == "binop" and n.meta in ("+", "-", "*", "/")
        while True:
            x, y = bare(a), bare(b)
            if not moves(x) and not moves(y):
                return a, b, ""
            if moves(x) and moves(y) and x.meta == y.meta:
                p, q = x.args[1], y.args[1]
                u, v = known(x.meta, p), known(y.meta, q)
                if p.k == q.k or u is not None and u == v:
                    a, b = x.args[0], y.args[0]
                    continue
                if u is not None and v is not None:
                    return a, b, (
                        f"stamps of the samples {x.meta} {describe(u)}, "
                        f"stamps to evaluate at {y.meta} {describe(v)}"
                        if x.meta in "+-" else
                        "stamps scaled by different factors")
                return a, b, ""
            for n, m in ((x, y), (y, x)):
                if not moves(m) and self.times.try_ev(m) is not None and \
                        self.times.try_ev(n.args[0]) is not None and known(
                            n.meta, n.args[1]) is not None:
                    return a, b, "stamps of one side shifted or scaled"
            return a, b, ""

    def walk(self, n, cond=()):
        key = (n.k, bool(cond), is_opaque(cond), is_updated(cond))
        if key in self.seen:
            return
        self.seen.add(key)
        op = n.op
        if n.k in self.data:
            nm, at = self.data[n.k]
            self.uses.append(Use("raw", nm, at, None, None, n, cond=cond))
            return
        if op == "applied" and n.args[0].op == "scipy.interpolate.interp1d":
            f = n.args[0]
            b = self.base(f.args[1])
            ti, to, bad = self.pair(f.args[0], n.args[1])
            u = Use("linear", *(b or (None, None)), self.tsrc(ti),
                    to, n, self.interp_detail(f) or bad, cond)
            u.times_node, u.inner = ti, f.args[1]
            self.uses.append(u)
            return
        if op in ("quaternion.squad",):
            b = self.base(n.args[0])
            ti, to, bad = self.pair(n.args[1], n.args[2])
            u = Use("spherical", *(b or (None, None)),
                    self.tsrc(ti), to, n, bad, cond=cond)
            u.times_node, u.inner = ti, n.args[0]
            self.uses.append(u)
            return
        if op == "numpy.interp":
            b = self.base(n.args[2])
            u = Use("clamped", *(b or (None, None)),
                    self.tsrc(n.args[1]), n.args[0], n, cond=cond)
            u.times_node, u.inner = n.args[1], n.args[2]
            self.uses.append(u)
            return
        if op == "loop":
            u = self.hold_loop(n)
            if u is not None:
                u.cond = cond
                self.uses.append(u)
                return
        if op in ("item", "numpy.take"):
            u = self.hold_item(n)
            if u is not None:
                u.cond = cond
                self.uses.append(u)
                return
        if op == "attr" and n.meta in ("shape", "ndim", "dtype", "size"):
            return
        if op in ("builtins.len", "numpy.shape", "numpy.ndim"):
            return
        if op == "phi":
            self.walk(n.args[1], cond + ((n.args[0], True),))
            self.walk(n.args[2], cond + ((n.args[0], False),))
            return
        if op in ("numpy.tile", "numpy.broadcast_to", "numpy.repeat"):
            b = self.base(n.args[0])
            if b is not None:
                self.uses.append(Use("static", *b, None, n.args[1], n,
                                     cond=cond))
                return
        if op not in TRANSPARENT and not is_opaque(cond) and not (
                op == "item" and self.plain_index(n.args[1])):
            cond = cond + (("opaque", op),)
        if op == "update":
            cond = cond + (("updated", op),)
        for a in n.args:
            if isinstance(a, N):
                self.walk(a, cond)
            elif isinstance(a, tuple):
                for x in a:
                    if isinstance(x, N):
                        self.walk(x, cond)

    @staticmethod
    def plain_index(i):
        """Slices and the like that keep the rows."""
        p = i.args if i.op == "tuple" else (i,)
        f = p[0] if p else i
        return f.op == "ellipsis" or f.op == "slice" and all(
            is_none(x) for x in f.args) or is_none(f)

    @staticmethod
    def interp_detail(f):
        # (x, y, kind, axis, copy, bounds_error, fill_value, assume_sorted)
        a = f.args
        d = []

        def val(i):
            return cval(a[i]) if len(a) > i and a[i].op == "const" else "?"
        if f.meta is None and len(a) >= 8:
            if val(2) != "linear":
                d.append(f"kind {val(2)}")
            if val(3) not in (0,):
                d.append(f"axis {val(3)}")
            if val(5) is False:
                d.append("bounds not checked")
            fv = a[6]
            if fv.op == "const" and cval(fv) == "extrapolate":
                d.append("extrapolates")
        return ", ".join(d)

    # -- step hold
    def at_event(self, n, lid):
        """(element, attr) when n is the loop's current row of its data."""
        if self.is_cur(n, lid):
            x, start = n.args[0], 0
            if x.op == "item" and x.args[1].op == "slice":
                lo, hi, st = x.args[1].args
                if not (is_none(hi) and is_none(st)) or lo.op != "const" or \
                        not isinstance(cval(lo), int) or cval(lo) < 0:
                    return None
                x, start = x.args[0], cval(lo)
            r = self.ev_name(x)
            if r is not None:
                self.starts[r[1]] = start
            return r
        if n.op == "item":
            i = n.args[1]
            if i.op == "tuple" and i.args:
                i = i.args[0]
            if i.op == "index_of":
                i = i.args[0]
            if self.is_cur(i, lid):
                return self.ev_name(n.args[0])
        if n.op in DATA_PEEL:
            return self.at_event(n.args[0], lid)
        return None

    def is_cur(self, n, lid):
        return n.op == "elem" and (n.meta == lid or n.meta is None and
                                   n.args[0].k == self.iter.k)

    def ev_name(self, n):
        b = self.base(n)
        if b is not None:
            return b
        v = self.times.try_ev(n)
        if v is not None and v[0] == "T":
            return (v[1], "timestamps")
        return None

    def mask_index(self, i):
        if i.op == "tuple":
            if not i.args:
                return None
            for x in i.args[1:]:
                if not (x.op == "ellipsis" or x.op == "slice" and
                        all(is_none(y) for y in x.args)):
                    return None
            i = i.args[0]
        if i.op == "item" and i.args[0].op in ("numpy.where",
                                               "numpy.nonzero"):
            i = i.args[0]
        if i.op in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero"):
            i = i.args[0]
        while i.op == "item" and i.args[1].op == "tuple":
            i = i.args[0]           # mask[:, None]
        return i

    def hold_loop(self, n):
        it, init, mu, body = n.args[:4]
        lid = mu.meta[0] if isinstance(mu.meta, tuple) else None
        if body.op == "update":
            acc, idx, val = body.args[:3]
        elif body.op == "numpy.where" and len(body.args) == 3:
            idx, val, acc = body.args
        else:
            return None
        if acc.op != "mu" or acc.meta != mu.meta:
            return None
        m = self.mask_index(idx)
        if m is None or m.op != "cmp":
            return None
        self.starts = {}
        self.iter = it
        v = self.at_event(val, lid)
        l, r = m.args
        op = m.meta
        ev = self.at_event(r, lid)
        out = l
        if ev is None:
            ev, out, op = self.at_event(l, lid), r, SWAP.get(op, op)
        if v is None or ev is None or ev[1] != "timestamps":
            return None
        d, blank = [], False
        a, b = self.starts.get(v[1], 0), self.starts.get("timestamps", 0)
        if a != b:
            d.append("values paired with the stamps of other events")
        elif a > 1:
            d.append(f"skips {a - 1} events")
        if op != ">=":
            d.append(f"a value takes effect where stamp {op} event time")
        if it.op in ("reversed", "builtins.reversed") or any(
                a.op in ("reversed", "builtins.reversed") for a in it.args):
            d.append("events applied in reverse order")
        b = init
        while b.op in ("numpy.tile", "numpy.broadcast_to", "numpy.repeat",
                       "m:copy", "numpy.array"):
            b = b.args[0]
        if b.op == "item" and b.args[1].op in ("const", "tuple", "slice"):
            i = b.args[1]
            src = self.ev_name(b.args[0])
            first = is_int(i, 0) or i.op == "slice" and \
                (is_none(i.args[0]) or is_int(i.args[0], 0)) and \
                is_int(i.args[1], 1)
            if src is None:
                return None
            if src != v:
                d.append(f"starts from {src[0]}.{src[1]}")
            elif not first:
                d.append("before the first event it does not start from the "
                         "first value")
        elif b.op in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full",
                      "numpy.zeros_like", "numpy.empty_like", "const",
                      "numpy.ones_like", "numpy.full_like", "list"):
            blank = True
            if not d:
                d.append("before the first event it does not start from the "
                         "first value")
        elif self.base(b) is not None:
            d.append("before the first event it does not start from the "
                     "first value")
        else:
            return None
        u = Use("hold", v[0], v[1], ("T", ev[0]), out, n, "; ".join(d))
        u.blank = blank
        return u

    def hold_item(self, n):
        b = self.base(n.args[0])
        if b is None:
            return None
        i = n.args[1]
        if i.op == "tuple" and i.args:
            i = i.args[0]
        clip0 = False
        while True:
            if i.op == "numpy.clip" and is_int(i.args[1], 0):
                clip0, i = True, i.args[0]
            elif i.op == "m:clip" and is_int(i.args[1], 0):
                clip0, i = True, i.args[0]
            elif i.op in ("numpy.maximum", "builtins.max", "numpy.fmax") and \
                    any(is_int(x, 0) for x in i.args[:2]):
                clip0 = True
                i = i.args[1] if is_int(i.args[0], 0) else i.args[0]
            elif i.op in ("m:clip", "m:astype", "numpy.asarray"):
                i = i.args[0]
            else:
                break
        off = 0
        if i.op == "binop" and i.meta == "-" and is_int(i.args[1], 1):
            off, i = -1, i.args[0]
        if i.op != "numpy.searchsorted":
            return None
        x = self.times.try_ev(i.args[0])
        if x is None or x[0] != "T":
            return None
        side = i.args[2] if len(i.args) > 2 else None
        s = cval(side) if side is not None and side.op == "const" else "left"
        d = []
        if off != -1:
            d.append("takes the next event instead of the latest")
        elif s != "right":
            d.append("a value takes effect only after its event time")
        if off == -1 and not clip0:
            d.append("before the first event the last value is used")
        return Use("hold", b[0], b[1], x, i.args[1], n, "; ".join(d))
