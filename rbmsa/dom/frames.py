"""Reference-frame type inference over the value-flow graph.

A vector value has the type (axes, linear form): ``axes`` is the frame whose
axes its components refer to and the linear form ranges over the atoms

  P(x)        position of the origin of frame x
  V(x)        velocity of the origin of x (with respect to a common inertial
              frame, which cancels in every well-formed relative quantity)
  O(x)        angular velocity of x (likewise)
  OP(x, y)    cross product O(x) x P(y)
  F(name)     an arbitrary caller-supplied vector

so that the displacement from o to s is P(s)-P(o), the angular velocity of x
relative to y is O(x)-O(y) and the linear velocity of x relative to y is
V(x)-V(y)-O(y) x (P(x)-P(y)).  A quaternion has the type Rot(a, b): it maps
components along the axes of a to components along the axes of b.

The inference rules are those of rigid-body kinematics; a value to which the
rules assign no type is either ill-typed (a definite frame error: Err) or
outside the inference (Top).
"""
from fractions import Fraction

from .. import lib
from ..ir import walk, N, cval, is_const, is_none, show

NOTHING = ("nothing",)


class Top:
    def __init__(self, why="", loc=None):
        self.why, self.loc = why, loc

    def __repr__(self):
        return f"Top({self.why})"


class Err:
    def __init__(self, msg, loc=None):
        self.msg, self.loc = msg, loc

    def __repr__(self):
        return f"Err({self.msg} @ {self.loc})"


class Buf:
    """Uninitialised storage that is filled later."""

    def __repr__(self):
        return "Buf"


class NoneT:
    def __repr__(self):
        return "NoneT"


class Vec:
    def __init__(self, axes, form):
        self.axes = axes
        self.form = {k: v for k, v in form.items() if v != 0}

    @property
    def zero(self):
        return not self.form

    def key(self):
        return (None if self.zero else self.axes,
                tuple(sorted(((repr(k), v) for k, v in self.form.items()))))

    def __eq__(self, o):
        return isinstance(o, Vec) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        f = " ".join(f"{'+' if v >= 0 else '-'}"
                     f"{'' if abs(v) == 1 else str(abs(v)) + '*'}{atom(k)}"
                     for k, v in sorted(self.form.items(), key=repr))
        return f"Vec[axes={frs(self.axes)}]({f or '0'})"


class Rot:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, o):
        return isinstance(o, Rot) and (self.a, self.b) == (o.a, o.b)

    def __hash__(self):
        return hash((self.a, self.b))

    def __repr__(self):
        return f"Rot({frs(self.a)} -> {frs(self.b)})"


class Mat:
    """Rotation matrix mapping a-axes components to b-axes components."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, o):
        return isinstance(o, Mat) and (self.a, self.b) == (o.a, o.b)

    def __hash__(self):
        return hash(("mat", self.a, self.b))

    def __repr__(self):
        return f"Matrix({frs(self.a)} -> {frs(self.b)})"


class IdRot:
    def __eq__(self, o):
        return isinstance(o, IdRot) or isinstance(o, Rot) and o.a == o.b

    def __hash__(self):
        return 1

    def __repr__(self):
        return "IdentityRotation"


class RotRate:
    """scale * (0, angular velocity of a w.r.t. b along axes) quaternion, or
    the raw time derivative of Rot(a, b) when axes is None."""

    def __init__(self, a, b, axes, scale):
        self.a, self.b, self.axes, self.scale = a, b, axes, scale

    def __repr__(self):
        return f"RotRate({frs(self.a)},{frs(self.b)},{self.axes},{self.scale})"


def frs(f):
    if f is None:
        return "any"
    if isinstance(f, tuple):
        if f[0] == "par":
            return f"parent({frs(f[1])})"
        if f[0] == "common":
            return "common ancestor"
        if f[0] == "e":
            return "path element"
        if f[0] == "cur":
            return "path cursor"
        return str(f)
    return str(f)


def atom(k):
    if k[0] == "OP":
        return f"O({frs(k[1])})xP({frs(k[2])})"
    return f"{k[0]}({frs(k[1])})"


def disp(o, s, axes):
    f = {}
    f[("P", s)] = f.get(("P", s), 0) + 1
    f[("P", o)] = f.get(("P", o), 0) - 1
    return Vec(axes, f)


def angvel(x, y, axes):
    return lin([(1, ("O", x)), (-1, ("O", y))], axes)


def linvel(x, y, axes):
    return lin([(1, ("V", x)), (-1, ("V", y)), (-1, ("OP", y, x)),
                (1, ("OP", y, y))], axes)


def lin(terms, axes):
    f = {}
    for c, a in terms:
        f[a] = f.get(a, 0) + c
    return Vec(axes, f)


def add(a, b, s=1, loc=None):
    if a.zero:
        return Vec(b.axes, {k: s * v for k, v in b.form.items()})
    if b.zero:
        return a
    if a.axes is not None and b.axes is not None and a.axes != b.axes:
        return Err(f"vectors with different axes are added: {a} and {b}", loc)
    f = dict(a.form)
    for k, v in b.form.items():
        f[k] = f.get(k, 0) + s * v
    return Vec(a.axes if a.axes is not None else b.axes, f)


def subst_frame(t, old, new, mask=None):
    """All ways to abstract occurrences of frame `old` in t by `new`."""
    if isinstance(t, Rot):
        out = []
        for a in ([new, t.a] if t.a == old else [t.a]):
            for b in ([new, t.b] if t.b == old else [t.b]):
                out.append(Rot(a, b))
        return out
    if isinstance(t, Vec):
        outs = [({}, )]
        forms = [{}]
        for k, v in t.form.items():
            alts = [k]
            if k[1] == old and len(k) == 2:
                alts = [(k[0], new), k]
            forms = [_addk(f, a, v) for f in forms for a in alts]
        axes = [new, t.axes] if t.axes == old else [t.axes]
        return [Vec(a, f) for f in forms for a in axes]
    return [t]


def _addk(f, k, v):
    f = dict(f)
    f[k] = f.get(k, 0) + v
    return f


def inst(t, cur, at):
    """Instantiate cursor frame `cur` by `at`."""
    if isinstance(t, Rot):
        return Rot(at if t.a == cur else t.a, at if t.b == cur else t.b)
    if isinstance(t, Vec):
        f = {}
        for k, v in t.form.items():
            k2 = tuple(at if x == cur else x for x in k)
            f[k2] = f.get(k2, 0) + v
        return Vec(at if t.axes == cur else t.axes, f)
    return t


def rename(t, sub):
    """Give frames that are one the same name, in a frame or a type."""
    if not sub or t is None:
        return t
    if isinstance(t, Rot):
        a, b = rename(t.a, sub), rename(t.b, sub)
        return IdRot() if a == b else Rot(a, b)
    if isinstance(t, Mat):
        return Mat(rename(t.a, sub), rename(t.b, sub))
    if isinstance(t, Vec):
        f = {}
        for k, v in t.form.items():
            k2 = (k[0],) + tuple(rename(x, sub) for x in k[1:]) \
                if k[0] != "F" else k
            f[k2] = f.get(k2, 0) + v
        return Vec(rename(t.axes, sub), f)
    if isinstance(t, (str, tuple)):
        if t in sub:
            return sub[t]
        if isinstance(t, tuple) and t and t[0] in ("par", "common"):
            r = (t[0],) + tuple(
                frozenset(rename(x, sub) for x in p)
                if isinstance(p, frozenset) else rename(p, sub)
                for p in t[1:])
            return sub.get(r, r)
    return t


PASS = {"numpy.asarray", "numpy.array", "numpy.copy", "numpy.tile",
        "numpy.repeat", "numpy.expand_dims", "numpy.swapaxes",
        "numpy.transpose", "numpy.reshape", "numpy.broadcast_to",
        "numpy.squeeze", "numpy.asanyarray", "numpy.ascontiguousarray",
        "m:astype", "m:copy", "m:reshape", "m:repeat", "m:view",
        "numpy.atleast_2d", "numpy.atleast_1d", "numpy.moveaxis",
        "quaternion.as_quat_array", "quaternion.as_float_array",
        "m:to_numpy", "enter", "numpy.require", "numpy.positive",
        "xarray.DataArray", "numpy.ravel", "numpy.nan_to_num", "copy.copy",
        "copy.deepcopy", "numpy.asfarray", "numpy.atleast_3d"}
# what mixes samples or components
MIX = {"numpy.mean", "numpy.median", "numpy.average", "numpy.sum",
       "numpy.cumsum", "numpy.sort", "numpy.unique", "numpy.abs",
       "numpy.absolute", "numpy.max", "numpy.min", "numpy.amax", "numpy.amin",
       "numpy.nanmean", "numpy.nanmedian", "numpy.roll", "numpy.flip",
       "numpy.clip", "m:mean", "m:median", "m:clip", "numpy.diff",
       "numpy.square", "numpy.sign", "numpy.fabs", "numpy.maximum",
       "numpy.minimum"}
BUFS = {"numpy.empty", "numpy.empty_like", "numpy.full", "numpy.full_like"}


def _none_test(c):
    """Does the condition only test whether a value is missing?"""
    if c.op == "not":
        return _none_test(c.args[0])
    if c.op == "isnone":
        return True
    if c.op == "phi":
        return all(_none_test(x) or x.op == "const" for x in c.args)
    return False


class FrameTyper:
    def __init__(self, frames, types=None, paths=None):
        """frames: {node.k: frame term}; types: {node.k: type}."""
        self.frames = frames
        self.types = types or {}
        self.memo = {}
        self.env = {}
        self.loopdirs = {}
        self.n_typed = 0
        self.rules = {}
        self.choice, self.open, self.sub = {}, {}, {}

    def cases(self, n, want=None):
        """(type of n, specified type) for each combination of the
        conditions that select a value or a frame.  Where the condition says
        that two frames are one, both are given the same name; where it says
        something else about the values (soft), a mismatch proves nothing."""
        out, todo = [], [{}]
        while todo and len(out) < 24:
            ch = todo.pop()
            sub, soft = self.assumed(ch)
            t = FrameTyper({k: rename(f, sub) for k, f in
                            self.frames.items()},
                           {k: rename(v, sub) for k, v in
                            self.types.items()})
            t.choice = {k: v for k, (v, _) in ch.items()}
            t.sub = sub
            ty = t.ty(n)
            self.n_typed += t.n_typed
            new = [k for k in t.open if k not in ch]
            if isinstance(ty, (Top, Err)) and new and len(ch) < 5:
                c = t.open[new[0]]
                todo += [{**ch, new[0]: (False, c)},
                         {**ch, new[0]: (True, c)}]
                continue
            if isinstance(ty, Rot) and ty.a == ty.b:
                ty = IdRot()
            w = rename(want, sub) if want is not None else None
            if soft and (isinstance(ty, Err) or w is not None and
                         not isinstance(ty, Top) and ty != w):
                ty = Top("under " + soft, getattr(ty, "loc", None))
            out.append((ty, w))
        return out

    def assumed(self, ch):
        """Renaming of frames and a reason for doubt that choices imply."""
        sub, soft = {}, None
        for v, c in ch.values():
            for k, pol, x, y in self.tests(c, v):
                if k == "same" and pol:
                    x, y = rename(x, sub), rename(y, sub)
                    if x != y:
                        if isinstance(y, tuple) and not isinstance(x, tuple):
                            x, y = y, x
                        sub = {a: rename(b, {x: y}) for a, b in sub.items()}
                        sub[x] = y
                elif k == "soft":
                    soft = show(c, 3)
        return sub, soft

    def tests(self, c, pol):
        """(kind, polarity, ...) of the tests in a condition: "same" for the
        identity of two frames, "soft" for what can make two different ways
        to the value agree, "hard" for what cannot."""
        if c.op == "not":
            return self.tests(c.args[0], not pol)
        if c.op == "phi":
            a, x, y = c.args
            # and / or of tests
            if y.k == a.k or y.op == "const" and not cval(y):
                both, one = True, x
            elif x.k == a.k or x.op == "const" and cval(x):
                both, one = False, y
            else:
                both = None
            if both is not None:
                alts = [self.tests(a, pol), self.tests(one, pol)]
                if both == pol:
                    return alts[0] + alts[1]
                # one of them is enough
                for t in alts:
                    if all(k == "hard" or k == "same" and not p
                           for k, p, *_ in t):
                        return t
            ks = [t for q in (a, x, y) if q.op != "const"
                  for t in self.tests(q, True)]
            if all(t[0] == "hard" for t in ks):
                return ks
            return [("soft", pol, None, None)]
        if c.op == "cmp" and c.meta in ("is", "==", "!=", "is not"):
            x, y = self.fr(c.args[0]), self.fr(c.args[1])
            if x is not None and y is not None:
                return [("same", pol == (c.meta in ("is", "==")), x, y)]
            if "is" in c.meta:
                return [("soft", pol, None, None)]
        if c.op in ("numpy.array_equal", "numpy.array_equiv"):
            return [("soft", pol, None, None)]
        if c.op in ("builtins.all", "numpy.all", "m:all") and any(
                x.op == "cmp" and x.meta == "==" for x in walk(c)):
            return [("soft", pol, None, None)]
        if c.op == "truth" and self.path(c.args[0]) is not None or \
                self.path(c) is not None:
            return [("soft", pol, None, None)]
        if c.op == "cmp" and any(
                x.op == "const" and cval(x) in (0, 1) and not isinstance(
                    cval(x), bool) for x in c.args) and any(
                x.op == "builtins.len" and self.path(x.args[0]) is not None
                for x in walk(c)):
            return [("soft", pol, None, None)]
        return [("hard", pol, None, None)]

    def splits(self, c):
        """Is a value selected by this condition better looked at in each
        case than joined?"""
        return any(t[0] != "hard" for t in self.tests(c, True))

    # ------------------------------------------------------------- frames
    def fr(self, n):
        if n.k in self.frames:
            return self.frames[n.k]
        if n.op == "attr" and n.meta == "parent":
            b = self.fr(n.args[0])
            return None if b is None else rename(("par", b), self.sub)
        if n.op == "attr" and n.meta == "root":
            # frames between which there is a transform share their root
            return None if self.fr(n.args[0]) is None else ("root",)
        if n.op == "elem":
            p = self.path(n.args[0])
            if p is not None:
                return ("e", n.args[0].k)
            return None
        if n.op == "item":
            w = n.args[0]
            if w.op == "m:walk" and is_const(n.args[1], 1):
                a, b = self.fr(w.args[1]), self.fr(w.args[2])
                if a is None or b is None:
                    return None
                return ("common", frozenset((a, b)))
        if n.op == "phi":
            a, b = self.fr(n.args[1]), self.fr(n.args[2])
            if a is None or b is None or a == b:
                return a
            c = n.args[0]
            if c.k in self.choice:
                return a if self.choice[c.k] else b
            self.open[c.k] = c
            return None
        if n.op in ("setattr", "update"):
            return self.fr(n.args[0])
        return None

    def path(self, n):
        """(direction, start, end, reversed) of a path sequence, 'bad' for a
        path with elements missing, None if n is no path."""
        if n.op == "item" and n.args[0].op == "m:walk":
            w = n.args[0]
            a, b = self.fr(w.args[1]), self.fr(w.args[2])
            if a is None or b is None:
                return None
            c = ("common", frozenset((a, b)))
            if is_const(n.args[1], 0):
                return ("up", a, c, False)
            if is_const(n.args[1], 2):
                return ("down", c, b, False)
            return None
        if n.op in ("builtins.tuple", "builtins.list", "builtins.iter"):
            return self.path(n.args[0]) if n.args else None
        if n.op in ("reversed", "builtins.reversed"):
            p = self.path(n.args[0])
            if isinstance(p, tuple):
                return (p[0], p[2], p[1], not p[3])
            return p
        if n.op == "item" and n.args[1].op == "slice":
            p = self.path(n.args[0])
            if p is None:
                return None
            s = n.args[1].args
            if all(is_none(x) for x in s):
                return p
            if is_none(s[0]) and is_none(s[1]) and (
                    is_const(s[2], -1) or (
                        s[2].op == "unop" and is_const(s[2].args[0], 1))):
                return (p[0], p[2], p[1], not p[3])
            return "bad"
        return None

    # ------------------------------------------------------------- values
    def ty(self, n):
        r = self.memo.get(n.k)
        if r is None:
            self.memo[n.k] = Top("cyclic", n.loc)
            r = self._ty(n)
            self.memo[n.k] = r
            if not isinstance(r, Top):
                self.n_typed += 1
                self.rules[n.op] = self.rules.get(n.op, 0) + 1
        return r

    def join(self, a, b, n):
        for x in (a, b):
            if isinstance(x, Err):
                return x
        if isinstance(a, Top) or isinstance(b, Top):
            return a if isinstance(a, Top) else b
        if isinstance(a, NoneT) and isinstance(b, NoneT):
            return a
        if isinstance(a, (NoneT, Buf)):
            return b
        if isinstance(b, (NoneT, Buf)):
            return a
        # a neutral value on one path only stands for "not specified"
        dflt = n.op != "phi" or _none_test(n.args[0])
        if isinstance(a, Vec) and isinstance(b, Vec):
            if a == b:
                return a
            # the velocity of a static transform is zero
            vel = not any(k[0] == "P" for k in (b if a.zero else a).form) or \
                any(k[0] == "V" for k in (b if a.zero else a).form)
            if (a.zero or b.zero) and (dflt or vel):
                return b if a.zero else a
            return Err(f"value is {a} on one path and {b} on another", n.loc)
        if isinstance(a, Vec) and a.zero and isinstance(b, (Rot, IdRot)):
            return b
        if isinstance(b, Vec) and b.zero and isinstance(a, (Rot, IdRot)):
            return a
        if isinstance(a, IdRot) and isinstance(b, IdRot):
            return a
        if isinstance(a, IdRot) and isinstance(b, Rot) or \
                isinstance(b, IdRot) and isinstance(a, Rot):
            if dflt:
                return b if isinstance(a, IdRot) else a
            return Err(f"value is {a} on one path and {b} on another", n.loc)
        if isinstance(a, Rot) and isinstance(b, Rot):
            if a == b:
                return a
            return Err(f"value is {a} on one path and {b} on another", n.loc)
        if isinstance(a, RotRate) and isinstance(b, RotRate) and \
                repr(a) == repr(b):
            return a
        return Err(f"value is {a} on one path and {b} on another", n.loc) \
            if isinstance(a, (Vec, Rot)) and isinstance(b, (Vec, Rot)) \
            else Top("join", n.loc)

    def scal(self, n):
        """Scalar constant value of a node, or None."""
        if n.op == "const" and isinstance(cval(n), (int, float)) and \
                not isinstance(cval(n), bool):
            return Fraction(cval(n)).limit_denominator(10**9)
        if n.op == "unop" and n.meta == "-":
            v = self.scal(n.args[0])
            return None if v is None else -v
        return None

    def rotate(self, q, v, n):
        for x in (q, v):
            if isinstance(x, (Err, Top)):
                return x
        if isinstance(v, Vec) and v.zero:
            if isinstance(q, (Rot, IdRot)):
                return Vec(None, {})
        if isinstance(q, IdRot):
            return v
        if isinstance(q, Rot) and isinstance(v, Vec):
            if v.axes is None:
                return Top("axes", n.loc)
            if v.axes != q.a:
                return Err(f"{q} is applied to {v}", n.loc)
            return Vec(q.b, v.form)
        return Top("rotate", n.loc)

    def compose(self, a, b, n):
        for x in (a, b):
            if isinstance(x, (Err, Top)):
                return x
        if isinstance(a, IdRot):
            return b
        if isinstance(b, IdRot):
            return a
        if isinstance(a, Rot) and isinstance(b, Rot):
            if b.b != a.a:
                return Err(f"rotations composed in the wrong order or "
                           f"direction: {a} * {b}", n.loc)
            return Rot(b.a, a.b)
        # time derivatives
        if isinstance(a, Rot) and isinstance(b, RotRate) and b.axes is None:
            # conj(q) * dq
            if a.a == b.b and a.b == b.a:
                return RotRate(b.a, b.b, b.a, Fraction(1, 2) * b.scale)
            return Err(f"{a} does not invert the rotation whose derivative "
                       f"it multiplies ({b})", n.loc)
        if isinstance(b, Rot) and isinstance(a, RotRate) and a.axes is None:
            if b.a == a.b and b.b == a.a:
                return RotRate(a.a, a.b, a.b, Fraction(1, 2) * a.scale)
            return Err(f"{b} does not invert the rotation whose derivative "
                       f"it multiplies ({a})", n.loc)
        return Top("compose", n.loc)

    def inv(self, q, n):
        if isinstance(q, Rot):
            return Rot(q.b, q.a)
        if isinstance(q, (IdRot, Err, Top)):
            return q
        return Top("inverse", n.loc)

    def cross(self, a, b, n):
        for x in (a, b):
            if isinstance(x, (Err, Top)):
                return x
        if not (isinstance(a, Vec) and isinstance(b, Vec)):
            return Top("cross", n.loc)
        if a.zero or b.zero:
            return Vec(None, {})
        if a.axes != b.axes:
            return Err(f"cross product of vectors with different axes: {a} "
                       f"and {b}", n.loc)
        f = {}
        for ka, va in a.form.items():
            for kb, vb in b.form.items():
                if ka[0] == "O" and kb[0] == "P":
                    k, s = ("OP", ka[1], kb[1]), 1
                elif ka[0] == "P" and kb[0] == "O":
                    k, s = ("OP", kb[1], ka[1]), -1
                else:
                    return Err(f"cross product of {a} and {b}", n.loc) \
                        if "F" not in (ka[0], kb[0]) else Top("cross", n.loc)
                f[k] = f.get(k, 0) + s * va * vb
        return Vec(a.axes, f)

    def gradient(self, a, n):
        if isinstance(a, (Err, Top)):
            return a
        if isinstance(a, Vec):
            if a.zero:
                return a
            f = {}
            for k, v in a.form.items():
                if k[0] != "P" or a.axes is None:
                    return Top("gradient", n.loc)
                f[("V", k[1])] = f.get(("V", k[1]), 0) + v
                k2 = ("OP", a.axes, k[1])
                f[k2] = f.get(k2, 0) - v
            return Vec(a.axes, f)
        if isinstance(a, Rot):
            return RotRate(a.a, a.b, None, Fraction(1))
        return Top("gradient", n.loc)

    def _rows(self, idx):
        """Does an index select whole vectors (rows)?"""
        if idx.op == "tuple":
            last = idx.args[-1] if idx.args else None
            if last is None:
                return True
            if any(a.op == "ellipsis" for a in idx.args[:-1]):
                return last.op == "slice" and all(is_none(x)
                                                  for x in last.args)
            if last.op == "ellipsis":
                return True
            if last.op == "slice" and all(is_none(x) for x in last.args):
                return True
            if is_none(last):
                return True
            return None
        return True

    def _tail3(self, idx):
        """[..., 1:]"""
        if idx.op == "tuple" and idx.args:
            l = idx.args[-1]
            return l.op == "slice" and is_const(l.args[0], 1) and \
                is_none(l.args[1]) and is_none(l.args[2])
        return False

    def _ty(self, n):
        if n.k in self.types:
            return self.types[n.k]
        if n.k in self.env:
            return self.env[n.k]
        op, a = n.op, n.args
        if op == "const":
            return NoneT() if is_none(n) else Top("const", n.loc)
        if op == "attr":
            if n.meta in ("translation", "rotation"):
                f = self.fr(a[0])
                if f is not None:
                    if n.meta == "translation":
                        return disp(("par", f), f, ("par", f))
                    return Rot(f, ("par", f))
                return Top("attr", n.loc)
            if n.meta in ("data", "values"):
                return self.ty(a[0])
            if n.meta == "T":
                t = self.ty(a[0])
                if isinstance(t, Mat):
                    return Mat(t.b, t.a)
            return Top("attr " + str(n.meta), n.loc)
        if op in ("numpy.transpose", "numpy.swapaxes", "m:transpose",
                  "numpy.linalg.inv", "numpy.moveaxis", "m:swapaxes"):
            t = self.ty(a[0])
            if isinstance(t, Mat):
                return Mat(t.b, t.a)
        if op == "quaternion.from_rotation_matrix":
            t = self.ty(a[0])
            return Rot(t.a, t.b) if isinstance(t, Mat) else \
                t if isinstance(t, (Err, Top)) else Top(op, n.loc)
        if op == "quaternion.as_rotation_matrix":
            t = self.ty(a[0])
            return Mat(t.a, t.b) if isinstance(t, Rot) else \
                t if isinstance(t, (Err, Top)) else Top(op, n.loc)
        if lib.lossy(n) or op == "m:astype" and is_const(
                a[1], "int", "int64", "i8") or op == "m:astype" and \
                a[1].op == "extern" and a[1].meta in (
                "builtins.int", "numpy.int64", "numpy.int_"):
            t = self.ty(a[0])
            return Err(f"values are changed by {lib.lossy(n) or 'a cast'}",
                       n.loc) if isinstance(t, (Rot, Vec)) and not (
                isinstance(t, Vec) and t.zero) else t
        if op in MIX:
            t = self.ty(a[0])
            return Err(f"{op} of {t} is not the value at one time", n.loc) \
                if isinstance(t, (Rot, Vec)) and not (
                    isinstance(t, Vec) and t.zero) else t if isinstance(
                    t, (Err, Vec)) else Top(op, n.loc)
        if op in PASS:
            return self.ty(a[0])
        if op == "phi":
            d = self.cond(a[0])
            if d is not None:
                return self.ty(a[1] if d else a[2])
            if self.splits(a[0]):
                x, y = self.ty(a[1]), self.ty(a[2])
                if repr(x) == repr(y) and not isinstance(x, (Top, Err)):
                    return x
                self.open[a[0].k] = a[0]
                return Top("condition " + show(a[0], 3), n.loc)
            return self.join(self.ty(a[1]), self.ty(a[2]), n)
        if op in ("op:rotate", "quaternion.rotate_vectors"):
            return self.rotate(self.ty(a[0]), self.ty(a[1]), n)
        if op == "op:qinv":
            return self.inv(self.ty(a[0]), n)
        if op in ("m:conjugate", "m:conj", "m:inverse", "numpy.conjugate",
                  "numpy.conj", "numpy.reciprocal", "m:reciprocal"):
            return self.inv(self.ty(a[0]), n)
        if op in ("numpy.zeros", "numpy.zeros_like"):
            return Vec(None, {})
        if op in BUFS:
            return Buf()
        if op in ("numpy.ones_like", "numpy.ones"):
            return Buf()
        if op == "quaternion.quaternion":
            if len(a) == 4 and is_const(a[0], 1) and all(
                    is_const(x, 0) for x in a[1:]):
                return IdRot()
            return Top("quaternion literal", n.loc)
        if op == "extern" and n.meta in ("quaternion.one",):
            return IdRot()
        if op in ("list", "tuple"):
            if len(a) == 4 and is_const(a[0], 1) and all(
                    is_const(x, 0) for x in a[1:]):
                return IdRot()
            if len(a) == 3 and all(is_const(x, 0) for x in a):
                return Vec(None, {})
            return Top(op, n.loc)
        if op == "unop" and n.meta == "-":
            t = self.ty(a[0])
            if isinstance(t, Vec):
                return Vec(t.axes, {k: -v for k, v in t.form.items()})
            if isinstance(t, (Rot, IdRot)):
                return t      # -q is the same rotation
            return t if isinstance(t, (Err, Top)) else Top("neg", n.loc)
        if op == "binop":
            return self.binop(n)
        if op in ("op:qmul", "numpy.multiply") and len(a) >= 2:
            ts = [self.ty(x) for x in a]
            r = ts[0]
            for t in ts[1:]:
                r = self.compose(r, t, n)
            return r
        if op in ("numpy.add", "numpy.subtract"):
            return self._addsub(n, a[0], a[1], op.endswith("subtract"))
        if op == "numpy.cross":
            return self.cross(self.ty(a[0]), self.ty(a[1]), n)
        if op == "numpy.gradient":
            return self.gradient(self.ty(a[0]), n)
        if op == "quaternion.derivative":
            return self.gradient(self.ty(a[0]), n)
        if op == "applied":
            f = a[0]
            if f.op == "scipy.interpolate.interp1d":
                t = self.ty(f.args[1])
                if isinstance(t, (Rot, IdRot)):
                    return Err("rotation is interpolated component-wise",
                               n.loc)
                return t
            return Top("applied", n.loc)
        if op == "quaternion.squad":
            t = self.ty(a[0])
            if isinstance(t, Vec) and not t.zero:
                return Err("vector is interpolated as a quaternion", n.loc)
            return t
        if op == "scipy.signal.filtfilt":
            return self.ty(a[2])
        if op == "item":
            t = self.ty(a[0])
            if isinstance(t, (Err, Top, NoneT)):
                return t
            if isinstance(t, RotRate):
                if self._tail3(a[1]) and t.axes is not None:
                    v = angvel(t.a, t.b, t.axes)
                    return Vec(t.axes, {k: c * t.scale
                                        for k, c in v.form.items()})
                if self._rows(a[1]):
                    return t
                return Top("item", n.loc)
            if self._rows(a[1]):
                return t
            if isinstance(t, Vec) and t.zero:
                return t
            if isinstance(t, (Rot, IdRot)) and self._slices_only(a[1]):
                return Buf() if False else Top("part of quaternion", n.loc)
            return Top("component", n.loc)
        if op == "elem":
            t = self.ty(a[0])
            return t
        if op == "update":
            return self.update(n)
        if op == "setattr":
            return self.ty(a[0])
        if op == "updmany":
            return Top("updmany", n.loc)
        if op == "loop":
            return self.loop(n)
        if op == "mu":
            return self.env.get(n.k) or Top("mu", n.loc)
        if op in ("numpy.where",):
            return self.join(self.ty(a[1]), self.ty(a[2]), n)
        if op == "numpy.take":
            return self.ty(a[0])
        if op in ("numpy.concatenate", "numpy.stack", "numpy.vstack"):
            s = a[0]
            if s.op in ("list", "tuple") and s.args:
                r = None
                for x in s.args:
                    if x.op == "mapseg":
                        x = x.args[1]
                    t = self.ty(x)
                    r = t if r is None else self.join(r, t, n)
                return r
        return Top(op, n.loc)

    def _slices_only(self, i):
        return False

    def update(self, n):
        base, idx, val = n.args
        b = self.ty(base)
        if isinstance(b, Err):
            return b
        if isinstance(b, Vec) and b.zero and idx.op == "tuple" and \
                len(idx.args) >= 2 and is_const(idx.args[-1], 0) and \
                is_const(val, 1):
            return IdRot()
        v = self.ty(val)
        rows = self._rows(idx)
        if rows:
            if val.op == "const":
                return b if isinstance(b, (Top, Buf)) else Top("const store",
                                                               n.loc)
            return self.join(b, v, n)
        return Top("partial update", n.loc)

    def binop(self, n):
        op, (x, y) = n.meta, n.args[:2]
        if op in ("+", "-"):
            return self._addsub(n, x, y, op == "-")
        if op == "*":
            sx, sy = self.scal(x), self.scal(y)
            if sx is not None or sy is not None:
                s, o = (sx, y) if sx is not None else (sy, x)
                t = self.ty(o)
                if isinstance(t, Vec):
                    return Vec(t.axes, {k: s * v for k, v in t.form.items()})
                if isinstance(t, RotRate):
                    return RotRate(t.a, t.b, t.axes, t.scale * s)
                if isinstance(t, (Rot, IdRot)):
                    # scaled quaternion: remember the factor on derivatives
                    return _Scaled(t, s)
                return t
            for p, o in ((x, y), (y, x)):
                if p.op == "extern" and p.meta == "numpy.nan":
                    return Buf()
            tx, ty = self.ty(x), self.ty(y)
            if isinstance(tx, _Scaled) or isinstance(ty, _Scaled):
                s = (tx.s if isinstance(tx, _Scaled) else 1) * \
                    (ty.s if isinstance(ty, _Scaled) else 1)
                t = self.compose(_unsc(tx), _unsc(ty), n)
                if isinstance(t, RotRate):
                    return RotRate(t.a, t.b, t.axes, t.scale * s)
                if isinstance(t, (Rot, IdRot)):
                    return _Scaled(t, s)
                return t
            return self.compose(tx, ty, n)
        if op == "/":
            if is_const(x, 1):
                return self.inv(self.ty(y), n)
            s = self.scal(y)
            if s:
                t = self.ty(x)
                if isinstance(t, Vec):
                    return Vec(t.axes, {k: v / s for k, v in t.form.items()})
                if isinstance(t, RotRate):
                    return RotRate(t.a, t.b, t.axes, t.scale / s)
                return t
            tx, ty = self.ty(x), self.ty(y)
            if isinstance(ty, (Rot, IdRot)):
                return self.compose(tx, self.inv(ty, n), n)
            return Top("division", n.loc)
        if op == "**":
            if is_const(y, -1):
                return self.inv(self.ty(x), n)
        return Top("binop " + str(op), n.loc)

    def _addsub(self, n, x, y, sub):
        a, b = self.ty(x), self.ty(y)
        for t in (a, b):
            if isinstance(t, Err):
                return t
        for t in (a, b):
            if isinstance(t, Top):
                return t
        if isinstance(a, Vec) and isinstance(b, Vec):
            return add(a, b, -1 if sub else 1, n.loc)
        return Top("sum", n.loc)

    def cond(self, c):
        """Conditions on the length of the spatial axis follow from types."""
        if c.op == "const":
            return bool(cval(c))
        if c.k in self.choice:
            return self.choice[c.k]
        if c.op == "not":
            d = self.cond(c.args[0])
            return None if d is None else not d
        if c.op == "phi":
            d = self.cond(c.args[0])
            if d is not None:
                return self.cond(c.args[1] if d else c.args[2])
            x, y = self.cond(c.args[1]), self.cond(c.args[2])
            return x if x == y else None
        if c.op == "truth":
            return self.cond(c.args[0])
        if c.op == "cmp" and c.meta in ("==", "<=", "<"):
            for i in (0, 1):
                x = c.args[i]
                if x.op == "phi":
                    o = c.args[1 - i]
                    rs = [self.cond(N("cmp", (b, o) if i == 0 else (o, b),
                                      c.meta)) for b in x.args[1:]]
                    d = self.cond(x.args[0])
                    if d is not None:
                        return rs[0] if d else rs[1]
                    return rs[0] if rs[0] == rs[1] else None
            x, y = self.size(c.args[0]), self.size(c.args[1])
            if x is not None and y is not None:
                return {"==": x == y, "<=": x <= y, "<": x < y}[c.meta]
        return None

    def size(self, n):
        if n.op == "const" and isinstance(cval(n), int):
            return cval(n)
        if n.op == "phi":
            d = self.cond(n.args[0])
            if d is not None:
                return self.size(n.args[1] if d else n.args[2])
            x, y = self.size(n.args[1]), self.size(n.args[2])
            return x if x == y else None
        if n.op == "item" and n.args[0].op == "phi":
            p = n.args[0]
            return self.size(N("phi", (p.args[0],
                                       N("item", (p.args[1], n.args[1])),
                                       N("item", (p.args[2], n.args[1])))))
        if n.op == "item" and n.args[0].op in ("tuple", "list") and \
                is_const(n.args[1], -1) and n.args[0].args:
            return self.size(n.args[0].args[-1])
        if n.op == "item" and n.args[0].op == "attr" and \
                n.args[0].meta == "shape" and is_const(n.args[1], -1):
            t = self.ty(n.args[0].args[0])
            if isinstance(t, Vec) and not t.zero:
                return 3
            if isinstance(t, (Rot, IdRot)):
                return 4
        return None

    # -------------------------------------------------------------- loops
    def loop(self, n):
        it, init, mu, body = n.args[:4]
        cond = n.args[4] if len(n.args) > 4 else None
        t0 = self.ty(init)
        if isinstance(t0, (Err,)):
            return t0
        p = self.path(it)
        if p == "bad":
            return Err("only part of the frame path is traversed", n.loc)
        if p is None:
            return self.plain_loop(n, t0)
        if isinstance(t0, Top):
            return t0
        direction, start, end, rev = p
        cur = ("cur", n.k)
        fe = ("e", it.k)
        cands = []
        if isinstance(t0, Vec) and t0.zero:
            for o, s in ((cur, start), (start, cur)):
                for ax in (cur, start):
                    cands.append(disp(o, s, ax))
        elif isinstance(t0, IdRot):
            cands = [Rot(start, cur), Rot(cur, start)]
        else:
            cands = subst_frame(t0, start, cur)
        # element-wise step: before -> after
        asc = (direction == "up") != rev
        err = None
        top = None
        skippable = cond is not None and not is_const(cond, True)
        for c in cands:
            got = None
            bad = False
            # the frame variable of the element occurs as elem(it)
            before = fe if asc else ("par", fe)
            after = ("par", fe) if asc else fe
            sub = FrameTyper(self.frames, self.types)
            sub.env = dict(self.env)
            sub.choice, sub.open = self.choice, self.open
            sub.env[mu.k] = inst(c, cur, before)
            got = sub.ty(body)
            self.n_typed += sub.n_typed
            if isinstance(got, Err):
                err = err or got
                continue
            if isinstance(got, Top):
                top = top or got
                continue
            want = inst(c, cur, after)
            if got == want or (isinstance(got, Vec) and isinstance(
                    want, Vec) and got.key() == want.key()):
                if skippable:
                    return Err("some frames of the path are skipped", n.loc)
                return inst(c, cur, end)
            err = err or Err(
                f"one step along the path yields {got} where {want} is "
                f"needed", body.loc)
        if top is not None:
            return top
        return err or Top("loop", n.loc)

    def plain_loop(self, n, t0):
        it, init, mu, body = n.args[:4]
        t = t0
        for _ in range(3):
            sub = FrameTyper(self.frames, self.types)
            sub.env = dict(self.env)
            sub.choice, sub.open = self.choice, self.open
            sub.env[mu.k] = t
            b = sub.ty(body)
            self.n_typed += sub.n_typed
            j = self.join(t, b, n)
            if isinstance(j, (Err, Top)):
                return j
            if repr(j) == repr(t):
                return j
            t = j
        return Top("loop", n.loc)


class _Scaled:
    def __init__(self, t, s):
        self.t, self.s = t, s

    def __repr__(self):
        return f"{self.s}*{self.t}"


def _unsc(t):
    return t.t if isinstance(t, _Scaled) else t
