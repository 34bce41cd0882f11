"""Axis-layout and component inference.

An array is abstracted by its list of axes and, for each combination of
component indices, one algebraic expression that holds uniformly along all
batch axes.  An axis is either a component axis (an int: its length) or a
batch axis (a label standing for an arbitrary length).  Broadcasting lines
axes up from the end; two different labels never broadcast.
"""
import itertools

from ..ir import N, cval, is_const, is_none, show
from .algebra import Alg, Points, Rat


class Top:
    def __init__(self, why="", loc=None):
        self.why, self.loc = why, loc

    def __repr__(self):
        return f"Top({self.why})"


class Err:
    """A definite error: the modelled operation cannot be applied."""

    def __init__(self, msg, loc=None):
        self.msg, self.loc = msg, loc

    def __repr__(self):
        return f"Err({self.msg} @ {self.loc})"


class Bail(Exception):
    def __init__(self, r):
        self.r = r


class Arr:
    """axes: tuple of int | str.  cells: {index tuple over int axes: expr} or
    None when only the layout is known.  quat: quaternion dtype (expr is then
    a 4-tuple)."""

    def __init__(self, axes, cells=None, quat=False):
        self.axes = tuple(axes)
        self.cells = cells
        self.quat = quat

    @property
    def ndim(self):
        return len(self.axes)

    def __repr__(self):
        return (f"Arr{list(self.axes)}{'q' if self.quat else ''}"
                f"{'' if self.cells is None else self.cells}")


class Sym:
    """Length of a batch axis."""

    def __init__(self, label):
        self.label = label

    def __eq__(self, o):
        return isinstance(o, Sym) and o.label == self.label

    def __hash__(self):
        return hash(self.label)

    def __repr__(self):
        return f"len<{self.label}>"


class Dtype:
    def __init__(self, q):
        self.q = q


class Slice:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    @property
    def full(self):
        return self.a is None and self.b is None and self.c is None

    def __repr__(self):
        return f"slice({self.a},{self.b},{self.c})"


class NewAxis:
    pass


class Mask:
    """Row selection along one batch axis."""

    def __init__(self, label):
        self.label = label


class Obj:
    """Opaque value with named payload."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return f"<{self.kind}>"


ELL = Ellipsis
UNDEF = Top("undefined")


def idxs(axes):
    return list(itertools.product(*[range(a) for a in axes
                                    if isinstance(a, int)]))


def int_pos(axes):
    """Position of each int axis among the int axes."""
    pos, k = {}, 0
    for i, a in enumerate(axes):
        if isinstance(a, int):
            pos[i] = k
            k += 1
    return pos


def bcast(ax, bx, loc=None):
    """Broadcast two axis lists."""
    out = []
    n = max(len(ax), len(bx))
    ax = (1,) * (n - len(ax)) + tuple(ax)
    bx = (1,) * (n - len(bx)) + tuple(bx)
    for a, b in zip(ax, bx):
        if a == b:
            out.append(a)
        elif a == 1:
            out.append(b)
        elif b == 1:
            out.append(a)
        else:
            raise Bail(Err(f"axes {list(ax)} and {list(bx)} do not "
                           f"broadcast", loc))
    return tuple(out)


def cell_at(a, axes, idx):
    """Cell of `a` for index idx over the int axes of broadcast `axes`."""
    pos = int_pos(axes)
    off = len(axes) - len(a.axes)
    ci = []
    for i, x in enumerate(a.axes):
        if isinstance(x, int):
            j = i + off
            v = idx[pos[j]] if j in pos else 0
            ci.append(0 if x == 1 else v)
    return a.cells[tuple(ci)]


def clear(v):
    """No part of the value hangs on an undecided condition."""
    return isinstance(v, Err) or not isinstance(v, (Top, Arr)) or \
        isinstance(v, Arr) and v.cells is not None


class ArrayEval:
    def __init__(self, alg=None, env=None):
        self.alg = alg or Alg()
        self.env = env or {}
        self.memo = {}
        self.ops = {}
        self.depth = 0
        self.noalg = False
        self.lens = {}
        self.base = 101         # lengths assumed in order tests
        self.lentests = []
        self.lensmall = set()
        self.assume = {}        # conditions on the data taken either way
        self.asked = {}         # conditions that were not decided

    def variants(self, n):
        """Values of n for generic lengths and, where the value depends on
        how a length compares with a number, for very large ones."""
        yield self.ev(n)
        if self.lentests:
            sub = self.fork()
            sub.lens, sub.base = {}, 10**9 + 1
            yield sub.ev(n)
        for lab, k in sorted(self.lensmall)[:4]:
            sub = self.fork()
            sub.lens, sub.lensmall = {lab: k}, set()
            yield sub.ev(n)
        yield from self.cases(n)

    def small(self, m, x, y):
        """Longest length below a number that a length is compared with."""
        for a, c, o in ((x, y, "<"), (y, x, "<=")):
            if isinstance(a, Sym) and isinstance(c, int) and \
                    a.label not in self.lens:
                k = c - 1 if (m == "<") == (o == "<") else c
                if k >= self.minlen:
                    self.lensmall.add((a.label, k))

    minlen = 2
    zeros = False           # inputs of zeros count, too

    # conditions on the data
    def cases(self, n, depth=3):
        """Values of n where conditions on the data that are not decided
        certainly hold for some inputs, and do not for others."""
        v = self.ev(n)
        if clear(v) or not depth:
            return
        for c in list(self.asked.values())[:4]:
            if c.k in self.assume:
                continue
            for pol in (True, False):
                sub = self.fork()
                sub.assume = {**self.assume, c.k: (c, pol)}
                sub.asked, sub.lentests = {}, []
                if not self.witness(sub.assume.values()):
                    continue
                v = sub.ev(n)
                if clear(v):
                    yield v
                else:
                    yield from sub.cases(n, depth - 1)

    def witness(self, conds):
        """Some point where all the conditions are as assumed."""
        conds = list(conds)
        signs = set()
        for base in Points(24):
            for s in (1, 1e-7, 1e7) + ((0,) if self.zeros else ()):
                def env(name, base=base, s=s):
                    v = base(name)
                    return v if name.startswith("len<") or name == "pi" \
                        else v * s
                try:
                    if all(self.holds(c, env, signs) is pol
                           for c, pol in conds):
                        return True
                except (NotImplementedError, ZeroDivisionError,
                        OverflowError, ValueError, Bail):
                    pass
        # both signs of a difference: somewhere the two are close
        return len(conds) == 1 and conds[0][1] and {1, -1} <= signs

    def holds(self, n, env, signs=None):
        """Truth of a condition on the data at a point, None if unknown."""
        op = n.op
        if op == "not" or op == "unop" and n.meta == "~":
            v = self.holds(n.args[0], env)
            return None if v is None else not v
        if op == "truth":
            return self.holds(n.args[0], env, signs)
        if op in ("numpy.any", "numpy.all", "builtins.any", "builtins.all",
                  "m:any", "m:all", "builtins.bool"):
            return self.holds(n.args[0], env, signs)
        if op == "phi" or op == "binop" and n.meta in "&|":
            vs = [self.holds(x, env) for x in n.args]
            if None in vs:
                return None
            if op == "phi":
                return vs[1] if vs[0] else vs[2]
            return vs[0] and vs[1] if n.meta == "&" else vs[0] or vs[1]
        if op == "const":
            return bool(cval(n))
        if op in ("in", "item", "attr") or op.startswith("numpy.") and \
                op not in ("numpy.allclose", "numpy.isclose"):
            r = {x != 0 for x in self.numbers(n, env)}
            return r.pop() if len(r) == 1 else None
        if op == "cmp" and n.meta in ("<", "<=", ">", ">=", "==", "!=") or \
                op in ("numpy.allclose", "numpy.isclose", "math.isclose"):
            xs, ys = (self.numbers(x, env) for x in n.args[:2])
            if len(xs) == 1:
                xs *= len(ys)
            if len(ys) == 1:
                ys *= len(xs)
            if len(xs) != len(ys):
                return None
            if op == "cmp":
                r = [{"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y,
                      "==": x == y, "!=": x != y}[n.meta]
                     for x, y in zip(xs, ys)]
                return r[0] if len(set(r)) == 1 else None
            if signs is not None:
                signs.update(1 if x > y else -1 for x, y in zip(xs, ys)
                             if x != y and len(xs) == 1)
            tol = [self.numbers(x, env)[0] for x in n.args[2:]
                   if isinstance(x, N) and not is_none(x) and
                   not isinstance(cval(x) if x.op == "const" else 0, bool)]
            if any(t > 1 for t in tol):
                return None
            r = [abs(x - y) <= 1e-2 * (1 + abs(y)) for x, y in zip(xs, ys)]
            return None if any(r) and not all(r) else r[0]
        return None

    def numbers(self, n, env):
        """The components of a value at a point."""
        a = self.arr(n)
        if a.quat or a.cells is None:
            raise NotImplementedError
        return [self.alg.evalf(c, env, {}) for c in a.cells.values()]

    # ---------------------------------------------------------- interface
    def ev(self, n):
        k = n.k
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = Top("cyclic", n.loc)
        try:
            r = self._ev(n)
        except Bail as e:
            r = e.r
            if getattr(r, "loc", None) is None:
                r.loc = n.loc
        except ZeroDivisionError:
            r = Top("division by zero", n.loc)
        except OverflowError as e:
            r = Top(str(e), n.loc)
        self.memo[k] = r
        if not isinstance(r, Top):
            self.ops[n.op] = self.ops.get(n.op, 0) + 1
        return r

    def arr(self, n):
        v = self.ev(n)
        return self.as_arr(v, n.loc)

    def as_arr(self, v, loc=None):
        if isinstance(v, (Top, Err)):
            raise Bail(v)
        if isinstance(v, Arr):
            return v
        if isinstance(v, bool):
            raise Bail(Top("bool", loc))
        if isinstance(v, (int, float)):
            return Arr((), {(): self.alg.num(v)})
        if isinstance(v, Rat):
            return Arr((), {(): v})
        if isinstance(v, Sym):
            return Arr((), {(): self.alg.var(f"len<{v.label}>")})
        if isinstance(v, (list, tuple)):
            return self.stack([self.as_arr(x, loc) for x in v], 0, loc)
        raise Bail(Top(f"not an array: {v!r}", loc))

    def val(self, n):
        v = self.ev(n)
        if isinstance(v, (Top, Err)):
            raise Bail(v)
        return v

    def int(self, n):
        v = self.plain(self.val(n))
        if isinstance(v, bool) or not isinstance(v, int):
            raise Bail(Top(f"not a known integer: {v!r}", n.loc))
        return v

    def plain(self, v):
        """0-d constant integer arrays as ints."""
        if isinstance(v, Arr) and v.axes == () and v.cells and not v.quat:
            c = v.cells[()].const()
            if c is not None and c.denominator == 1:
                return int(c)
        return v

    def items_of(self, a):
        """Elements along the first axis of an array of known length."""
        if not a.axes or not isinstance(a.axes[0], int):
            return None
        return [self.plain(self.drop(a, 0, j)) for j in range(a.axes[0])]

    def ax(self, i, nd, loc=None):
        if not isinstance(i, int):
            raise Bail(Top("axis", loc))
        if not -nd <= i < nd:
            raise Bail(Err(f"axis {i} is out of bounds for an array with "
                           f"{nd} dimensions", loc))
        return i % nd

    # ---------------------------------------------------------- operations
    def elementwise(self, f, *arrs, quat=False, loc=None):
        axes = arrs[0].axes
        for a in arrs[1:]:
            axes = bcast(axes, a.axes, loc)
        if any(a.cells is None for a in arrs):
            return Arr(axes, None, quat)
        cells = {}
        for ix in idxs(axes):
            cells[ix] = f(*[cell_at(a, axes, ix) for a in arrs])
        return Arr(axes, cells, quat)

    def permute(self, a, perm):
        axes = tuple(a.axes[p] for p in perm)
        if a.cells is None:
            return Arr(axes, None, a.quat)
        pos = int_pos(a.axes)
        order = [pos[p] for p in perm if p in pos]
        cells = {tuple(ix[o] for o in order): c for ix, c in a.cells.items()}
        return Arr(axes, cells, a.quat)

    def swap(self, a, i, j, loc=None):
        i, j = self.ax(i, a.ndim, loc), self.ax(j, a.ndim, loc)
        p = list(range(a.ndim))
        p[i], p[j] = p[j], p[i]
        return self.permute(a, p)

    def expand(self, a, i, loc=None):
        i = self.ax(i, a.ndim + 1, loc)
        axes = a.axes[:i] + (1,) + a.axes[i:]
        if a.cells is None:
            return Arr(axes, None, a.quat)
        k = sum(isinstance(x, int) for x in a.axes[:i])
        return Arr(axes, {ix[:k] + (0,) + ix[k:]: c
                          for ix, c in a.cells.items()}, a.quat)

    def drop(self, a, i, at=0):
        """Select component `at` of int axis i."""
        axes = a.axes[:i] + a.axes[i + 1:]
        if a.cells is None:
            return Arr(axes, None, a.quat)
        k = sum(isinstance(x, int) for x in a.axes[:i])
        return Arr(axes, {ix[:k] + ix[k + 1:]: c for ix, c in a.cells.items()
                          if ix[k] == at}, a.quat)

    def select(self, a, i, ids):
        """Subset/reorder of int axis i."""
        axes = a.axes[:i] + (len(ids),) + a.axes[i + 1:]
        if a.cells is None:
            return Arr(axes, None, a.quat)
        k = sum(isinstance(x, int) for x in a.axes[:i])
        cells = {}
        for ix, c in a.cells.items():
            for new, old in enumerate(ids):
                if ix[k] == old:
                    cells[ix[:k] + (new,) + ix[k + 1:]] = c
        return Arr(axes, cells, a.quat)

    def stack(self, arrs, axis, loc=None):
        if not arrs:
            raise Bail(Top("empty stack", loc))
        ax0 = arrs[0].axes
        for a in arrs[1:]:
            if a.axes != ax0:
                raise Bail(Err(f"arrays of different layouts are stacked: "
                               f"{list(ax0)} and {list(a.axes)}", loc))
        i = self.ax(axis, len(ax0) + 1, loc)
        axes = ax0[:i] + (len(arrs),) + ax0[i:]
        if any(a.cells is None for a in arrs):
            return Arr(axes, None, arrs[0].quat)
        k = sum(isinstance(x, int) for x in ax0[:i])
        cells = {}
        for j, a in enumerate(arrs):
            for ix, c in a.cells.items():
                cells[ix[:k] + (j,) + ix[k:]] = c
        return Arr(axes, cells, arrs[0].quat)

    def concat(self, arrs, axis, loc=None):
        nd = arrs[0].ndim
        i = self.ax(axis, nd, loc)
        for a in arrs:
            if a.ndim != nd or a.axes[:i] != arrs[0].axes[:i] or \
                    a.axes[i + 1:] != arrs[0].axes[i + 1:]:
                raise Bail(Err(f"arrays of different layouts are "
                               f"concatenated: {list(arrs[0].axes)} and "
                               f"{list(a.axes)}", loc))
            if not isinstance(a.axes[i], int):
                raise Bail(Top("concatenation along batch axis", loc))
        tot = sum(a.axes[i] for a in arrs)
        axes = arrs[0].axes[:i] + (tot,) + arrs[0].axes[i + 1:]
        if any(a.cells is None for a in arrs):
            return Arr(axes, None)
        k = sum(isinstance(x, int) for x in axes[:i])
        cells, off = {}, 0
        for a in arrs:
            for ix, c in a.cells.items():
                cells[ix[:k] + (ix[k] + off,) + ix[k + 1:]] = c
            off += a.axes[i]
        return Arr(axes, cells)

    def reduce_axis(self, a, i, f, keep=False, loc=None):
        i = self.ax(i, a.ndim, loc)
        if not isinstance(a.axes[i], int):
            axes = a.axes[:i] + ((1,) if keep else ()) + a.axes[i + 1:]
            if f == self._sum and a.cells is not None and not a.quat:
                k = sum(isinstance(x, int) for x in a.axes[:i])
                lab = a.axes[i]
                return Arr(axes, {ix[:k] + ((0,) if keep else ()) + ix[k:]:
                                  self.total(lab, c)
                                  for ix, c in a.cells.items()})
            return Arr(axes, None, a.quat)
        k = sum(isinstance(x, int) for x in a.axes[:i])
        axes = a.axes[:i] + ((1,) if keep else ()) + a.axes[i + 1:]
        if a.cells is None:
            return Arr(axes, None, a.quat)
        g = {}
        for ix in sorted(a.cells):
            g.setdefault(ix[:k] + ((0,) if keep else ()) + ix[k + 1:],
                         []).append(a.cells[ix])
        return Arr(axes, {q: f(v) for q, v in g.items()}, a.quat)

    def summ(self, a, axis, keep, loc):
        if axis is None:
            if not keep:
                r = a
                for _ in range(a.ndim):
                    r = self.reduce_axis(r, -1, self._sum, False, loc)
                return r
            raise Bail(Top("sum", loc))
        if isinstance(axis, (tuple, list)):
            r = a
            for x in sorted((self.ax(q, a.ndim, loc) for q in axis),
                            reverse=True):
                r = self.reduce_axis(r, x, self._sum, keep, loc)
            return r
        return self.reduce_axis(a, axis, self._sum, keep, loc)

    def _sum(self, v):
        r = v[0]
        for x in v[1:]:
            r = r + x
        return r

    # quaternion cells -----------------------------------------------------
    def qmul(self, p, q):
        a, b, c, d = p
        e, f, g, h = q
        return (a * e - b * f - c * g - d * h,
                a * f + b * e + c * h - d * g,
                a * g - b * h + c * e + d * f,
                a * h + b * g - c * f + d * e)

    def qconj(self, q):
        return (q[0], -q[1], -q[2], -q[3])

    def qnorm2(self, q):
        return q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]

    def qinv(self, q):
        n = self.qnorm2(q)
        return tuple(x / n for x in self.qconj(q))

    def to_quat(self, a, loc=None):
        if a.quat:
            return a
        if not a.axes or a.axes[-1] != 4:
            raise Bail(Err(f"array with axes {list(a.axes)} is read as "
                           f"quaternions", loc))
        if a.cells is None:
            return Arr(a.axes[:-1], None, True)
        g = {}
        for ix, c in a.cells.items():
            g.setdefault(ix[:-1], {})[ix[-1]] = c
        return Arr(a.axes[:-1], {k: tuple(v[i] for i in range(4))
                                 for k, v in g.items()}, True)

    def to_float(self, a):
        if not a.quat:
            return a
        if a.cells is None:
            return Arr(a.axes + (4,), None)
        return Arr(a.axes + (4,), {k + (i,): v[i] for k, v in a.cells.items()
                                   for i in range(4)})

    def promote(self, a):
        """scalar array -> quaternion array."""
        if a.quat:
            return a
        z = self.alg.num(0)
        if a.cells is None:
            return Arr(a.axes, None, True)
        return Arr(a.axes, {k: (c, z, z, z) for k, c in a.cells.items()},
                   True)

    def arith(self, op, a, b, loc):
        q = a.quat or b.quat
        if q:
            if op == "/" and not b.quat:
                return self.elementwise(
                    lambda x, y: tuple(c / y for c in x), a, b, quat=True,
                    loc=loc)
            if op == "*" and not (a.quat and b.quat):
                if a.quat:
                    return self.elementwise(
                        lambda x, y: tuple(c * y for c in x), a, b,
                        quat=True, loc=loc)
                return self.elementwise(
                    lambda y, x: tuple(c * y for c in x), a, b, quat=True,
                    loc=loc)
            a, b = self.promote(a), self.promote(b)
            f = {"+": lambda x, y: tuple(i + j for i, j in zip(x, y)),
                 "-": lambda x, y: tuple(i - j for i, j in zip(x, y)),
                 "*": self.qmul,
                 "/": lambda x, y: self.qmul(x, self.qinv(y))}.get(op)
            if f is None:
                raise Bail(Top("quaternion " + op, loc))
            return self.elementwise(f, a, b, quat=True, loc=loc)
        f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y,
             "*": lambda x, y: x * y, "/": lambda x, y: x / y}.get(op)
        if op == "**":
            if b.axes == () and b.cells:
                c = b.cells[()].const()
                if c is not None and c.denominator == 1:
                    return self.elementwise(lambda x: x ** int(c), a, loc=loc)
                if c is not None and c.denominator == 2:
                    return self.elementwise(
                        lambda x: self.alg.sqrt(x) ** int(2 * c), a, loc=loc)
            raise Bail(Top("power", loc))
        if f is None:
            raise Bail(Top("operator " + str(op), loc))
        return self.elementwise(f, a, b, loc=loc)

    def cross(self, a, b, axisa, axisb, axisc, axis, loc):
        if axis is not None:
            axisa = axisb = axisc = axis
        ia, ib = self.ax(axisa, a.ndim, loc), self.ax(axisb, b.ndim, loc)
        if a.axes[ia] != 3 or b.axes[ib] != 3:
            raise Bail(Err(f"cross product along axes of length "
                           f"{a.axes[ia]} and {b.axes[ib]}", loc))
        a = self.move(a, ia, a.ndim - 1)
        b = self.move(b, ib, b.ndim - 1)
        A = [self.drop(a, a.ndim - 1, i) for i in range(3)]
        B = [self.drop(b, b.ndim - 1, i) for i in range(3)]

        def c(i, j):
            return self.elementwise(
                lambda p, q, r, s: p * q - r * s, A[i], B[j], A[j], B[i],
                loc=loc)
        out = self.stack([c(1, 2), c(2, 0), c(0, 1)], -1, loc)
        return self.move(out, out.ndim - 1, self.ax(axisc, out.ndim, loc))

    def move(self, a, i, j):
        p = [x for x in range(a.ndim) if x != i]
        p.insert(j, i)
        return self.permute(a, p)

    # ---------------------------------------------------------- indexing
    def index(self, a, ix, loc=None):
        items = list(ix) if isinstance(ix, tuple) else [ix]
        items = [NewAxis() if x is None else x for x in items]
        nreal = sum(not isinstance(x, (NewAxis, type(ELL))) for x in items)
        if ELL in [x for x in items if x is ELL]:
            p = [i for i, x in enumerate(items) if x is ELL][0]
            items[p:p + 1] = [Slice(None, None, None)] * (a.ndim - nreal)
        else:
            items += [Slice(None, None, None)] * (a.ndim - nreal)
        if sum(not isinstance(x, NewAxis) for x in items) > a.ndim:
            raise Bail(Err(f"too many indices for axes {list(a.axes)}", loc))
        r, pos = a, 0
        for x in items:
            if isinstance(x, NewAxis):
                r = self.expand(r, pos, loc)
                pos += 1
            elif isinstance(x, Slice):
                if not x.full:
                    r = self.slice_axis(r, pos, x, loc)
                pos += 1
            elif isinstance(x, bool):
                raise Bail(Top("boolean index", loc))
            elif isinstance(x, int):
                if isinstance(r.axes[pos], int):
                    if not -r.axes[pos] <= x < r.axes[pos]:
                        raise Bail(Err(f"index {x} is out of bounds for an "
                                       f"axis of length {r.axes[pos]}", loc))
                    r = self.drop(r, pos, x % r.axes[pos])
                else:
                    r = Arr(r.axes[:pos] + r.axes[pos + 1:], None, r.quat)
            elif isinstance(x, Mask):
                if isinstance(r.axes[pos], int):
                    raise Bail(Err("row selection applied to a component "
                                   "axis", loc))
                if r.axes[pos] != x.label and r.axes[pos] != x.of:
                    raise Bail(Err(f"row selection for axis {x.of} applied "
                                   f"to axis {r.axes[pos]}", loc))
                r = Arr(r.axes[:pos] + (x.label,) + r.axes[pos + 1:],
                        r.cells, r.quat)
                pos += 1
            elif isinstance(x, list) and x and all(
                    isinstance(j, int) and not isinstance(j, bool)
                    for j in x) and isinstance(r.axes[pos], int) and all(
                        isinstance(y, (NewAxis, Slice)) or y is x
                        for y in items):
                k = r.axes[pos]
                if not all(-k <= j < k for j in x):
                    raise Bail(Err(f"index {x} is out of bounds for an axis "
                                   f"of length {k}", loc))
                r = self.select(r, pos, [j % k for j in x])
                pos += 1
            else:
                raise Bail(Top(f"index {x!r}", loc))
        return r

    def slice_axis(self, a, i, s, loc):
        if not isinstance(a.axes[i], int):
            if s.a is None and s.b is None and s.c == -1:
                return Arr(a.axes, None, a.quat)
            if s.a in (None, 0) and s.c in (None, 1) and isinstance(
                    s.b, int) and not isinstance(s.b, bool) and s.b > 4:
                # the first rows of a longer array
                lab = f"{a.axes[i]}[:{s.b}]"
                self.lens[lab] = s.b
                return Arr(a.axes[:i] + (lab,) + a.axes[i + 1:], a.cells,
                           a.quat)
            raise Bail(Top("slice of batch axis", loc))
        for v in (s.a, s.b, s.c):
            if v is not None and (isinstance(v, bool) or
                                  not isinstance(v, int)):
                raise Bail(Top("slice bounds", loc))
        return self.select(a, i, list(range(a.axes[i]))[
            slice(s.a, s.b, s.c)])

    # ---------------------------------------------------------- evaluation
    def truthy(self, n):
        """True / False / None."""
        if n.k in self.assume:
            return self.assume[n.k][1]
        t = self._truthy(n)
        if t is None and n.op not in ("not", "phi"):
            self.asked[n.k] = n
        return t

    def _truthy(self, n):
        op = n.op
        if op == "const":
            return bool(cval(n))
        if op == "not":
            d = self.truthy(n.args[0])
            return None if d is None else not d
        if op == "phi":
            d = self.truthy(n.args[0])
            if d is not None:
                return self.truthy(n.args[1] if d else n.args[2])
            x, y = self.truthy(n.args[1]), self.truthy(n.args[2])
            return x if x == y else None
        if op == "truth":
            v = self.ev(n.args[0])
            if isinstance(v, (Top, Err, Arr, Rat, Sym)):
                return None
            if isinstance(v, Obj):
                return None
            if v is ELL or isinstance(v, (Slice, NewAxis, Mask)):
                return None
            return bool(v)
        if op == "isnone":
            v = self.ev(n.args[0])
            if isinstance(v, (Top, Err)):
                return None
            return v is None
        if op == "is":
            return None
        if op == "cmp":
            return self.cmp(n)
        if op in ("isinst",):
            return self.isinst(n)
        if op == "in_":
            x, y = self.ev(n.args[0]), self.ev(n.args[1])
            if isinstance(y, (tuple, list, str)) and not isinstance(
                    x, (Top, Err)) and all(
                        isinstance(q, (str, int, Sym)) for q in y):
                return x in y
            return None
        v = self.ev(n)
        if isinstance(v, bool):
            return v
        return None

    def isinst(self, n):
        v = self.ev(n.args[0])
        kinds = {"builtins.tuple": tuple, "builtins.list": list,
                 "builtins.int": int, "builtins.str": str,
                 "builtins.float": float, "builtins.bool": bool,
                 "numpy.ndarray": Arr}
        ts = n.args[1:]
        if len(ts) == 1 and ts[0].op in ("tuple", "list"):
            ts = ts[0].args
        if isinstance(v, (Top, Err, Obj, Sym)):
            return None
        r = False
        for t in ts:
            k = kinds.get(t.meta) if t.op == "extern" else None
            if k is None:
                r = None
            elif isinstance(v, k):
                return True
        return r

    def cmp(self, n):
        x, y = self.ev(n.args[0]), self.ev(n.args[1])
        m = n.meta
        if isinstance(x, (Top, Err)) or isinstance(y, (Top, Err)):
            return None
        if isinstance(x, Dtype) and isinstance(y, Dtype):
            r = x.q == y.q
            return r if m in ("==", "is") else None
        if isinstance(x, Dtype) or isinstance(y, Dtype):
            return None
        if isinstance(x, Sym) or isinstance(y, Sym):
            if m == "==":
                if isinstance(x, Sym) and isinstance(y, Sym):
                    return True if x == y else False
                return False   # a generic length equals no constant
            if m in ("<", "<=") and self.lens is not None:
                if isinstance(x, int) and x > 8 or \
                        isinstance(y, int) and y > 8:
                    self.lentests.append(m)
                else:
                    self.small(m, x, y)
                x, y = self.len_of(x), self.len_of(y)
                if x is not None and y is not None:
                    return x < y if m == "<" else x <= y
            return None
        ok = (int, float, str, tuple, list, type(None))
        if isinstance(x, ok) and isinstance(y, ok):
            try:
                if m == "==":
                    return x == y
                if m == "is":
                    return x is y or x == y
                if m == "<":
                    return x < y
                if m == "<=":
                    return x <= y
            except TypeError:
                return None
        return None

    def len_of(self, x):
        """Concrete length standing for a generic one in order tests."""
        if isinstance(x, Sym):
            if x.label not in self.lens:
                self.lens[x.label] = self.base + 2 * len(self.lens)
            return self.lens[x.label]
        return x if isinstance(x, (int, float)) else None

    def join(self, a, b, n):
        if isinstance(a, Err):
            return a
        if isinstance(b, Err):
            return b
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.axes != b.axes or a.quat != b.quat:
                return Top(f"layouts differ: {a.axes} {b.axes}", n.loc)
            if a.cells is None or b.cells is None:
                return Arr(a.axes, None, a.quat)
            cells = {}
            for k in a.cells:
                x, y = a.cells[k], b.cells[k]
                xs = x if a.quat else (x,)
                ys = y if a.quat else (y,)
                for p, q in zip(xs, ys):
                    if not self.alg.iszero(p - q):
                        return self.join_diff(a, b, n)
                cells[k] = x
            return Arr(a.axes, cells, a.quat)
        try:
            if a == b:
                return a
        except Exception:
            pass
        return Top("paths differ", n.loc)

    def join_diff(self, a, b, n):
        c = self.condition(n.args[0]) if n.op == "phi" else None
        if c is not None and not a.quat:
            try:
                return self.elementwise(
                    lambda c, x, y: self.alg.fn("where", c, x, y), c, a, b,
                    loc=n.loc)
            except Bail:
                pass
        return Arr(a.axes, None, a.quat)

    def condition(self, n):
        """0-d truth value depending on array values, as an expression."""
        if n.op == "not":
            c = self.condition(n.args[0])
            return None if c is None else self.elementwise(
                lambda x: self.alg.num(1) - x, c)
        if n.op == "truth":
            return self.condition(n.args[0])
        if n.op == "cmp":
            v = self.relation(n)
            return v if v is not None and v.axes == () else None
        return None

    def relation(self, n):
        name = {"<": "lt", "<=": "le", "==": "eq"}.get(n.meta)
        x, y = self.ev(n.args[0]), self.ev(n.args[1])
        if name is None or not all(isinstance(v, (Arr, int, float, Sym))
                                   and not isinstance(v, bool)
                                   for v in (x, y)) or \
                not (isinstance(x, Arr) or isinstance(y, Arr)):
            return None
        x, y = self.as_arr(x), self.as_arr(y)
        if x.quat or y.quat:
            return None
        return self.elementwise(lambda a, b: self.alg.fn(name, a, b), x, y,
                                loc=n.loc)

    def o_numpy_where(self, n):
        if is_none(n.args[1]) or is_none(n.args[2]):
            return Top("where", n.loc)
        c, a, b = (self.arr(x) for x in n.args[:3])
        if a.quat or b.quat:
            return Top("where", n.loc)
        return self.elementwise(
            lambda c, x, y: x if self.alg.iszero(x - y) else
            self.alg.fn("where", c, x, y), c, a, b, loc=n.loc)

    def _ev(self, n):
        if n.k in self.env:
            v = self.env[n.k]
            return v
        f = getattr(self, "o_" + n.op.replace(".", "_").replace(":", "_"),
                    None)
        if f is not None:
            return f(n)
        return Top(n.op, n.loc)

    # constants and structure
    def o_const(self, n):
        v = cval(n)
        return v

    def o_extern(self, n):
        m = n.meta
        if m == "numpy.newaxis":
            return NewAxis()
        if m == "quaternion.quaternion":
            return Dtype(True)
        if m == "quaternion.one":
            o, z = self.alg.num(1), self.alg.num(0)
            return Arr((), {(): (o, z, z, z)}, True)
        if m in ("numpy.pi", "math.pi"):
            return Arr((), {(): self.alg.var("pi")})
        return Top(m, n.loc)

    def o_ellipsis(self, n):
        return ELL

    def o_slice(self, n):
        return Slice(*[self.val(a) if not is_none(a) else None
                       for a in n.args])

    def o_tuple(self, n):
        return tuple(self._items(n))

    def o_list(self, n):
        return list(self._items(n))

    def _items(self, n):
        out = []
        for a in n.args:
            if a.op == "mapseg":
                for sub, _ in self.each(a.args[0], n.loc):
                    if len(a.args) > 2:
                        c = sub.truthy(a.args[2])
                        if c is None:
                            raise Bail(Top("filtered sequence", n.loc))
                        if not c:
                            continue
                    v = sub.ev(a.args[1])
                    if isinstance(v, (Top, Err)):
                        raise Bail(v)
                    out.append(v)
            elif a.op == "condseg":
                c = self.truthy(a.args[0])
                if c is None:
                    raise Bail(Top("conditional element", n.loc))
                if c:
                    out.append(self.val(a.args[1]))
            elif a.op == "star":
                v = self.val(a.args[0])
                out += list(v)
            elif a.op == "museg":
                raise Bail(Top("sequence", n.loc))
            else:
                v = self.ev(a)
                if isinstance(v, (Top, Err)):
                    raise Bail(v)
                out.append(v)
        return out

    def seq(self, n):
        """Elements of a sequence of known length."""
        it = self.val(n)
        if isinstance(it, Arr):
            it = self.items_of(it)
        if isinstance(it, frozenset) and all(
                isinstance(x, int) for x in it):
            it = tuple(sorted(it))
        if not isinstance(it, (tuple, list)):
            raise Bail(Top("sequence", n.loc))
        return it

    def each(self, it, loc=None):
        """One evaluator per iteration over `it` (zip, enumerate, plain)."""
        srcs, idx = [it], None
        if it.op == "zip":
            srcs = list(it.args)
        elif it.op == "enumerate":
            srcs = [it.args[0]]
        vals = [self.seq(x) for x in srcs]
        for j in range(min(len(v) for v in vals)):
            sub = self.fork()
            for x, v in zip(srcs, vals):
                sub.bind_elem(x, j, v[j])
            if len(srcs) == 1:
                sub.bind_elem(it, j, vals[0][j])
            yield sub, vals[0][j]

    def o_quant(self, n):
        isall = n.meta == "all"
        r = isall
        try:
            for sub, _ in self.each(n.args[0], n.loc):
                if len(n.args) > 2:
                    c = sub.truthy(n.args[2])
                    if c is False:
                        continue
                else:
                    c = True
                d = sub.truthy(n.args[1])
                if c and d is (not isall):
                    return not isall
                if d is None or c is None:
                    r = None
        except Bail as e:
            return e.r
        return Top("quantifier", n.loc) if r is None else r

    def o_mutated(self, n):
        v = self.val(n.args[0])
        a = [self.val(x) for x in n.args[1:]]
        if isinstance(v, list):
            v = list(v)
            try:
                if n.meta == "pop":
                    v.pop(*a)
                elif n.meta == "insert":
                    v.insert(*a)
                elif n.meta == "append":
                    v.append(*a)
                elif n.meta == "remove":
                    v.remove(*a)
                elif n.meta == "reverse":
                    v.reverse()
                elif n.meta == "extend":
                    v.extend(*a)
                else:
                    return Top(n.meta, n.loc)
            except (IndexError, ValueError, TypeError) as e:
                return Err(str(e), n.loc)
            return v
        return Top("mutated", n.loc)

    def o_delitem(self, n):
        v, i = self.val(n.args[0]), self.val(n.args[1])
        if isinstance(v, list) and isinstance(i, int):
            v = list(v)
            if not -len(v) <= i < len(v):
                return Err("index out of range", n.loc)
            del v[i]
            return v
        return Top("del", n.loc)

    def fork(self):
        sub = type(self)(self.alg, dict(self.env))
        sub.__dict__.update({k: v for k, v in self.__dict__.items()
                             if k not in ("env", "memo")})
        sub.env = dict(self.env)
        sub.memo = {}
        sub.elems = dict(getattr(self, "elems", {}))
        sub.ops = self.ops
        return sub

    def bind_elem(self, it, j, x):
        self.elems = dict(getattr(self, "elems", {}))
        self.elems[it.k] = (j, x)

    def o_elem(self, n):
        e = getattr(self, "elems", {}).get(n.args[0].k)
        if e is not None:
            return e[1]
        src = self.ev(n.args[0])
        if isinstance(src, Arr) and src.axes:
            if isinstance(src.axes[0], str):
                return Arr(src.axes[1:], src.cells, src.quat)
        return Top("element", n.loc)

    def o_ntuple(self, n):
        return tuple(self.ev(a) for a in n.args)

    def o_phi(self, n):
        d = self.truthy(n.args[0])
        if d is not None:
            return self.ev(n.args[1] if d else n.args[2])
        return self.join(self.ev(n.args[1]), self.ev(n.args[2]), n)

    def o_in(self, n):
        return Top("input " + str(n.meta[0]), n.loc)

    def o_range(self, n):
        v = [self.int(a) for a in n.args]
        return list(range(*v))

    def o_isnone(self, n):
        return self._b(n)

    o_truth = o_in_ = o_isinst = o_isnone

    def o_cmp(self, n):
        t = self.truthy(n)
        if t is None:
            r = self.relation(n)
            return Top("condition", n.loc) if r is None else r
        return t

    def o_not(self, n):
        t = self.truthy(n)
        if t is None:
            r = self.ev(n.args[0])
            if isinstance(r, Arr) and r.cells is not None and not r.quat:
                return self.elementwise(lambda x: self.alg.num(1) - x, r)
            return Top("condition", n.loc)
        return t

    def _b(self, n):
        t = self.truthy(n)
        return Top("condition", n.loc) if t is None else t

    def o_loop(self, n):
        it, init, mu, body = n.args[:4]
        cond = n.args[4] if len(n.args) > 4 else None
        v = self.ev(init)
        for sub, _ in self.each(it, n.loc):
            sub.env[mu.k] = v
            if cond is not None:
                c = sub.truthy(cond)
                if c is None:
                    return Top("loop condition", n.loc)
                if not c:
                    continue
            v = sub.ev(body)
            if isinstance(v, (Top, Err)):
                return v
        return v

    def o_index_of(self, n):
        e = getattr(self, "elems", {}).get(n.args[1].k)
        return e[0] if e is not None else Top("index", n.loc)

    # attributes
    def o_attr(self, n):
        v = self.val(n.args[0])
        m = n.meta
        if isinstance(v, Arr):
            if m == "shape":
                return tuple(a if isinstance(a, int) else Sym(a)
                             for a in v.axes)
            if m == "ndim":
                return v.ndim
            if m == "size":
                return self.size(v)
            if m == "T":
                return self.permute(v, list(range(v.ndim))[::-1])
            if m == "dtype":
                return Dtype(v.quat)
            if m in ("data", "values"):
                return v
            if v.quat and m in ("w", "x", "y", "z") and v.cells:
                i = "wxyz".index(m)
                return Arr(v.axes, {k: c[i] for k, c in v.cells.items()})
            if v.quat and m in ("real", "imag", "vec"):
                f = self.to_float(v)
                return self.drop(f, f.ndim - 1, 0) if m == "real" else \
                    self.select(f, f.ndim - 1, [1, 2, 3])
            if m == "real":
                return v
        if isinstance(v, Obj) and m in v.__dict__:
            return getattr(v, m)
        return Top("attr " + str(m), n.loc)

    def o_item(self, n):
        v = self.val(n.args[0])
        i = self.val(n.args[1])
        if isinstance(v, Arr):
            return self.index(v, i, n.loc)
        if isinstance(v, (tuple, list)):
            if isinstance(i, Slice):
                return v[slice(i.a, i.b, i.c)]
            if isinstance(i, int) and not isinstance(i, bool):
                if -len(v) <= i < len(v):
                    return v[i]
                return Err(f"index {i} out of range", n.loc)
        return Top("item", n.loc)

    def written_through(self, n):
        """An array after a write through a view with permuted axes."""
        def root(v):
            while v.op == "update":
                v = v.args[0]
            return v
        view, after = n.args[1].args
        r, base = root(view), n.args[0]
        while base.op == "update" and base.args[1].op == "viewwrite" and \
                root(base.args[1].args[0]).k == r.k:
            base = base.args[0]
        v = self.arr(after)
        while r.k != base.k:
            if r.op == "numpy.swapaxes":
                v = self.swap(v, self.int(r.args[1]), self.int(r.args[2]),
                              n.loc)
            elif r.op == "numpy.moveaxis":
                i, j = self.int(r.args[1]), self.int(r.args[2])
                v = self.move(v, self.ax(j, v.ndim, n.loc),
                              self.ax(i, v.ndim, n.loc))
            elif r.op == "attr" and r.meta == "T":
                v = self.permute(v, list(range(v.ndim))[::-1])
            else:
                return Top("viewwrite", n.loc)
            r = r.args[0]
        return v

    def o_update(self, n):
        if n.args[1].op == "viewwrite" and len(n.args[1].args) == 2:
            return self.written_through(n)
        b = self.val(n.args[0])
        i = self.val(n.args[1])
        v = self.ev(n.args[2])
        if isinstance(v, (Top, Err)):
            return v
        if isinstance(b, list):
            if isinstance(i, int):
                b = list(b)
                b[i] = v
                return b
        if isinstance(b, Arr):
            return self.assign(b, i, self.as_arr(v, n.loc), n)
        return Top("update", n.loc)

    def assign(self, b, i, v, n):
        items = list(i) if isinstance(i, tuple) else [i]
        if any(isinstance(x, Mask) for x in items):
            tgt = self.index(b, i, n.loc)
            bcast(tgt.axes, v.axes, n.loc)
            ax = tgt.axes
            return Arr(b.axes, v.cells if v.axes == ax else None, b.quat)
        if b.cells is None or v.cells is None or b.quat:
            return Arr(b.axes, None, b.quat)
        # assignment through component indices
        keyed = Arr(b.axes, {ix: ix for ix in b.cells})
        tgt = self.index(keyed, i, n.loc)
        if tgt.cells is None:
            return Arr(b.axes, None, b.quat)
        vv = Arr(v.axes, v.cells)
        ax = bcast(tgt.axes, vv.axes, n.loc)
        if ax != tgt.axes:
            raise Bail(Err(f"value with axes {list(v.axes)} stored into "
                           f"axes {list(tgt.axes)}", n.loc))
        cells = dict(b.cells)
        for ix, key in tgt.cells.items():
            cells[key] = cell_at(vv, tgt.axes, ix)
        return Arr(b.axes, cells)

    def o_setattr(self, n):
        return self.ev(n.args[0])

    # arithmetic
    def o_binop(self, n):
        op = n.meta
        x, y = self.ev(n.args[0]), self.ev(n.args[1])
        for v in (x, y):
            if isinstance(v, (Top, Err)):
                return v
        num = (int, float)
        if isinstance(x, num) and isinstance(y, num):
            try:
                return {"+": lambda: x + y, "-": lambda: x - y,
                        "*": lambda: x * y, "/": lambda: self._div(x, y),
                        "//": lambda: x // y,
                        "%": lambda: x % y, "**": lambda: x ** y}[op]()
            except KeyError:
                return Top("operator", n.loc)
        if isinstance(x, frozenset) and isinstance(y, frozenset):
            return x - y if op == "-" else x | y if op == "|" else x & y \
                if op == "&" else x ^ y if op == "^" else Top(op, n.loc)
        if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) \
                and op == "+":
            return x + y
        if isinstance(x, (list, tuple)) and isinstance(y, int) and op == "*":
            return x * y
        if isinstance(y, (list, tuple)) and isinstance(x, int) and op == "*":
            return y * x
        if op == "@":
            return self.matmul(self.as_arr(x), self.as_arr(y), n.loc)
        return self.arith(op, self.as_arr(x, n.loc), self.as_arr(y, n.loc),
                          n.loc)

    def _div(self, x, y):
        if isinstance(x, int) and isinstance(y, int) and x % y == 0:
            return x // y
        return x / y

    def matmul(self, a, b, loc):
        if a.ndim == 0 or b.ndim == 0:
            raise Bail(Err("matmul of scalar", loc))
        return Top("matmul", loc)

    def o_unop(self, n):
        v = self.val(n.args[0])
        if n.meta == "-":
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return -v
            a = self.as_arr(v, n.loc)
            if a.quat:
                return self.elementwise(lambda q: tuple(-c for c in q), a,
                                        quat=True)
            return self.elementwise(lambda x: -x, a)
        if n.meta == "~" and isinstance(v, Mask):
            return v
        if n.meta == "+":
            return v
        return Top("unop", n.loc)

    # library
    def _copy(self, n):
        v = self.val(n.args[0])
        if isinstance(v, (list, tuple, int, float)) and \
                not isinstance(v, bool):
            return self.as_arr(v, n.loc)
        return v

    o_numpy_asarray = o_numpy_asanyarray = o_numpy_copy = _copy

    def o_numpy_atleast_2d(self, n, k=2):
        a = self.arr(n.args[0])
        if len(n.args) > 1 or a.quat:
            return Top(n.op, n.loc)
        while len(a.axes) < k:
            a = self.expand(a, 0, n.loc)
        return a

    def o_numpy_atleast_1d(self, n):
        return self.o_numpy_atleast_2d(n, 1)
    o_numpy_ascontiguousarray = o_m_copy = o_m_to_numpy = o_enter = _copy
    o_m_astype = o_numpy_array = o_numpy_asfarray = _copy

    def o_set(self, n):
        return frozenset(self.val(a) for a in n.args)

    def o_builtins_set(self, n):
        if not n.args:
            return frozenset()
        v = self.ev(n.args[0])
        if isinstance(v, (list, tuple, range, frozenset)) and all(
                isinstance(x, (int, str)) for x in v):
            return frozenset(v)
        return Top("set", n.loc)

    o_builtins_frozenset = o_builtins_set

    def o_builtins_tuple(self, n):
        if not n.args:
            return ()
        return tuple(self.seq(n.args[0]))

    def o_builtins_list(self, n):
        if not n.args:
            return []
        return list(self.seq(n.args[0]))

    def o_numpy_arange(self, n):
        v = [self.int(a) for a in n.args if not is_none(a)]
        r = list(range(*v))
        return Arr((len(r),), {(i,): self.alg.num(x)
                               for i, x in enumerate(r)})

    def o_builtins_len(self, n):
        v = self.val(n.args[0])
        if isinstance(v, (list, tuple, str)):
            return len(v)
        if isinstance(v, Arr) and v.axes:
            a = v.axes[0]
            return a if isinstance(a, int) else Sym(a)
        return Top("len", n.loc)

    def o_builtins_max(self, n, pick=max):
        v = [self.plain(self.val(a)) for a in n.args]
        if len(v) == 1:
            v = [self.plain(x) for x in self.seq(n.args[0])]
        if v and all(isinstance(x, (int, float)) for x in v):
            return pick(v)
        if v and all(isinstance(x, (int, float, Sym)) for x in v):
            return pick(v, key=self.len_of)
        return Top("max/min", n.loc)

    def o_builtins_min(self, n):
        return self.o_builtins_max(n, min)

    def o_builtins_abs(self, n):
        v = self.val(n.args[0])
        if isinstance(v, (int, float)):
            return abs(v)
        return self.o_numpy_abs(n)

    def o_builtins_int(self, n):
        v = self.val(n.args[0])
        return v if isinstance(v, int) else Top("int", n.loc)

    o_operator_index = o_builtins_int

    def o_numpy_ndim(self, n):
        return self.arr(n.args[0]).ndim

    def size(self, v):
        k, labs = 1, []
        for a in v.axes:
            if isinstance(a, int):
                k *= a
            else:
                labs.append(a)
        if not labs or k == 0:
            return k
        if k == 1 and len(labs) == 1:
            return Sym(labs[0])
        return Sym("*".join(sorted(labs) + ([str(k)] if k > 1 else [])))

    def o_numpy_prod(self, n):
        v = self.ev(n.args[0])
        if isinstance(v, (tuple, list)) and all(
                isinstance(x, (int, Sym)) for x in v) and all(
                    is_none(a) or is_const(a) for a in n.args[1:]):
            k, labs = 1, []
            for x in v:
                if isinstance(x, int):
                    k *= x
                else:
                    labs += x.label.split("*")
            if not labs or k == 0:
                return k
            return Sym("*".join(sorted(labs) + ([str(k)] if k > 1 else [])))
        return Top("product", n.loc)

    o_math_prod = o_numpy_prod

    def o_numpy_size(self, n):
        a = self.arr(n.args[0])
        if len(n.args) > 1 and not is_none(n.args[1]):
            x = a.axes[self.ax(self.int(n.args[1]), a.ndim, n.loc)]
            return x if isinstance(x, int) else Sym(x)
        return self.size(a)

    def o_numpy_shape(self, n):
        return tuple(a if isinstance(a, int) else Sym(a)
                     for a in self.arr(n.args[0]).axes)

    def o_numpy_swapaxes(self, n):
        return self.swap(self.arr(n.args[0]), self.int(n.args[1]),
                         self.int(n.args[2]), n.loc)

    def o_numpy_moveaxis(self, n):
        a = self.arr(n.args[0])
        i, j = self.int(n.args[1]), self.int(n.args[2])
        return self.move(a, self.ax(i, a.ndim, n.loc),
                         self.ax(j, a.ndim, n.loc))

    def o_numpy_rollaxis(self, n):
        return Top("rollaxis", n.loc)

    def o_numpy_transpose(self, n):
        a = self.arr(n.args[0])
        p = self.val(n.args[1]) if len(n.args) > 1 else None
        if p is None:
            return self.permute(a, list(range(a.ndim))[::-1])
        if isinstance(p, (tuple, list)):
            return self.permute(a, [self.ax(x, a.ndim, n.loc) for x in p])
        return Top("transpose", n.loc)

    def o_numpy_expand_dims(self, n):
        return self.expand(self.arr(n.args[0]), self.int(n.args[1]), n.loc)

    def o_numpy_squeeze(self, n):
        a = self.arr(n.args[0])
        ax = self.val(n.args[1])
        if ax is None:
            return Top("squeeze", n.loc)
        i = self.ax(ax, a.ndim, n.loc)
        if a.axes[i] != 1:
            return Err(f"squeeze of axis of length {a.axes[i]}", n.loc)
        return self.drop(a, i, 0)

    def o_numpy_take(self, n):
        a = self.arr(n.args[0])
        i, ax = self.val(n.args[1]), self.val(n.args[2])
        if ax is None:
            return Top("take", n.loc)
        k = self.ax(ax, a.ndim, n.loc)
        if not isinstance(a.axes[k], int):
            return Top("take along batch axis", n.loc)
        if isinstance(i, int):
            return self.drop(a, k, i % a.axes[k])
        if isinstance(i, (tuple, list)) and all(isinstance(x, int)
                                                for x in i):
            return self.select(a, k, [x % a.axes[k] for x in i])
        return Top("take", n.loc)

    def o_numpy_stack(self, n):
        v = self.val(n.args[0])
        return self.stack([self.as_arr(x, n.loc) for x in v],
                          self.int(n.args[1]), n.loc)

    def o_numpy_concatenate(self, n):
        v = self.val(n.args[0])
        return self.concat([self.as_arr(x, n.loc) for x in v],
                           self.int(n.args[1]), n.loc)

    def o_numpy_vstack(self, n):
        v = [self.as_arr(x, n.loc) for x in self.val(n.args[0])]
        return self.concat([self.stack([a], 0, n.loc) if a.ndim == 1 else a
                            for a in v], 0, n.loc)

    def o_numpy_sum(self, n):
        a = self.arr(n.args[0])
        keep = self.val(n.args[4])
        return self.summ(a, self.val(n.args[1]), bool(keep), n.loc)

    # linear functionals along a batch axis
    def total(self, lab, x):
        """Sum over batch axis `lab`, distributed over the terms of x."""
        if len(x.d) != 1 or () not in x.d:
            return self.alg.fn("sum:" + lab, x)
        out = self.alg.num(0)
        for m, c in x.n.items():
            one = Rat({m: c / c}, x.d, self.alg)
            out = out + self.alg.fn("sum:" + lab, one) * self.alg.num(c)
        return out

    def length(self, ax):
        return self.alg.num(ax) if isinstance(ax, int) else \
            self.alg.var(f"len<{ax}>")

    def axes_of(self, a, axis, loc):
        if axis is None:
            return list(range(a.ndim))
        if not isinstance(axis, (tuple, list)):
            axis = (axis,)
        return [self.ax(i, a.ndim, loc) for i in axis]

    def o_numpy_mean(self, n):
        a = self.arr(n.args[0])
        if a.quat:
            return Top("mean", n.loc)
        ids = self.axes_of(a, self.val(n.args[1]), n.loc)
        m = self.alg.num(1)
        for i in ids:
            m = m * self.length(a.axes[i])
        keep = len(n.args) > 4 and bool(self.val(n.args[4]))
        r = self.summ(a, tuple(ids), keep, n.loc)
        return self.elementwise(lambda x: x / m, r, loc=n.loc)

    # eigenvectors
    def upscale(self, A):
        """The matrix up to a positive factor (same eigenvectors)."""
        A = [self.alg.reduce(x) for x in A]
        d = next((x.d for x in A if x.n), None)
        if d is not None and len(d) == 1 and all(
                x.d == d or not x.n for x in A):
            (m, c), = d.items()
            if c > 0 and all(self.alg.vars[v][0] == "var" and
                             str(self.alg.vars[v][1]).startswith("len<")
                             for v, _ in m):
                A = [x * Rat(d, {(): 1}, self.alg) for x in A]
        x = next((x for x in A if x.n), None)
        if x is not None:
            c = abs(x.n[max(x.n)])
            A = [y / self.alg.num(c) for y in A]
        return A

    def topvec(self, A):
        k = int(len(A) ** .5)
        A = self.upscale(A)
        return [self.alg.fn("topvec", self.alg.num(i), *A) for i in range(k)]

    def o_numpy_linalg_eig(self, n, kind="eig"):
        a = self.arr(n.args[0])
        if a.ndim < 2 or a.axes[-1] != a.axes[-2] or \
                not isinstance(a.axes[-1], int):
            return Err(f"eigenvectors of an array with axes {list(a.axes)}",
                       n.loc)
        k = a.axes[-1]
        la, va = a.axes[:-1], a.axes
        if a.cells is None:
            return (Arr(la, None), Arr(va, None))
        lc, vc = {}, {}
        for ix in idxs(la[:-1]):
            A = self.upscale([a.cells[ix + (i, j)]
                              for i in range(k) for j in range(k)])
            for j in range(k):
                # ascending order for symmetric solvers, none otherwise
                t = self.alg.num(j) if kind == "eig" else \
                    self.alg.num(100 + j)
                if kind != "eig" and j == k - 1:
                    lc[ix + (j,)] = self.alg.fn("topval", *A)
                else:
                    lc[ix + (j,)] = self.alg.fn("eigval", t, *A)
                for i in range(k):
                    I_ = self.alg.num(i)
                    if kind != "eig" and j == k - 1:
                        vc[ix + (i, j)] = self.alg.fn("topvec", I_, *A)
                    else:
                        vc[ix + (i, j)] = self.alg.fn("eigvec", I_, t, *A)
        return (Arr(la, lc), Arr(va, vc))

    def o_numpy_linalg_eigh(self, n):
        return self.o_numpy_linalg_eig(n, "eigh")

    def atom_of(self, x):
        """(kind, payload) of a single-atom expression."""
        if x.d == {(): 1} and len(x.n) == 1:
            (m, c), = x.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return self.alg.vars[m[0][0]]
        return None, ()

    def _arg(name):
        def f(self, n):
            a = self.arr(n.args[0])
            ax = self.val(n.args[1]) if len(n.args) > 1 else None
            if ax is None:
                if a.ndim != 1:
                    return Top(name, n.loc)
                ax = 0
            if isinstance(a.axes[self.ax(ax, a.ndim, n.loc)], str):
                return Top(name, n.loc)
            return self.reduce_axis(
                a, ax, lambda v: self.alg.fn(name, *v), False, n.loc)
        return f

    o_numpy_argmax = o_m_argmax = _arg("argmax")
    o_numpy_argmin = o_m_argmin = _arg("argmin")

    def pick(self, vals, i):
        """Element of `vals` (one axis of eigenvectors) chosen by i."""
        c = i.const()
        if c is not None and c.denominator == 1 and \
                -len(vals) <= c < len(vals):
            return vals[int(c)]
        k, p = self.atom_of(i)
        if k in ("fn:argmax", "fn:argmin") and len(p) == len(vals):
            lv = [self.atom_of(x) for x in p]
            vv = [self.atom_of(x) for x in vals]
            if all(a == "fn:eigval" for a, _ in lv) and \
                    all(a == "fn:eigvec" for a, _ in vv):
                A = lv[0][1][1:]
                same = self.alg.same
                if all(same(x[0], self.alg.num(j)) and len(x[1:]) == len(A)
                       and all(same(s, t) for s, t in zip(x[1:], A))
                       for j, (_, x) in enumerate(lv)) and \
                   all(same(y[1], self.alg.num(j)) and
                       same(y[0], vv[0][1][0]) and
                       all(same(s, t) for s, t in zip(y[2:], A))
                       for j, (_, y) in enumerate(vv)):
                    return self.alg.fn("topvec" if k == "fn:argmax" else
                                       "bottomvec", vv[0][1][0], *A)
        return self.alg.fn("pick", i, *vals)

    def o_numpy_take_along_axis(self, n):
        a, i = self.arr(n.args[0]), self.arr(n.args[1])
        ax = self.val(n.args[2])
        if ax is None or a.ndim != i.ndim:
            return Top("take_along_axis", n.loc)
        k = self.ax(ax, a.ndim, n.loc)
        if not isinstance(a.axes[k], int) or not isinstance(i.axes[k], int):
            return Top("take_along_axis", n.loc)
        ra = a.axes[:k] + (1,) + a.axes[k + 1:]
        ri = i.axes[:k] + (1,) + i.axes[k + 1:]
        rest = bcast(ra, ri, n.loc)
        axes = rest[:k] + (i.axes[k],) + rest[k + 1:]
        if a.cells is None or i.cells is None:
            return Arr(axes, None)
        p = sum(isinstance(x, int) for x in a.axes[:k])
        cells = {}
        for ix in idxs(axes):
            sel = cell_at(i, axes, ix)
            vals = []
            for j in range(a.axes[k]):
                jx = ix[:p] + (0,) + ix[p + 1:]
                sub = self.drop(a, k, j)
                vals.append(cell_at(self.expand(sub, k), rest, jx))
            cells[ix] = self.pick(vals, sel)
        return Arr(axes, cells)

    def o_numpy_real(self, n):
        a = self.arr(n.args[0])
        return Top("real", n.loc) if a.quat else a

    def o_builtins_sum(self, n):
        v = [int(x) if isinstance(x, bool) else self.plain(x)
             for x in self.seq(n.args[0])]
        if all(isinstance(x, int) for x in v):
            return sum(v)
        if isinstance(v, (tuple, list)):
            r = self.as_arr(v[0], n.loc)
            for x in v[1:]:
                r = self.arith("+", r, self.as_arr(x, n.loc), n.loc)
            return r
        return Top("sum", n.loc)

    def o_numpy_linalg_norm(self, n):
        a = self.arr(n.args[0])
        o, ax, keep = [self.val(x) for x in n.args[1:4]]
        if o is not None and o != 2:
            return self._fnnorm(a, o, ax, keep, n)
        if ax is None:
            if a.ndim != 1:
                r = a
                sq = self.elementwise(lambda x: x * x, a)
                s = self.summ(sq, None, False, n.loc)
                return s if s.cells is None else self.elementwise(
                    self.alg.sqrt, s)
            ax = -1
        sq = self.elementwise(lambda x: x * x, a)
        s = self.summ(sq, ax, bool(keep), n.loc)
        return s if s.cells is None else self.elementwise(self.alg.sqrt, s)

    def _fnnorm(self, a, o, ax, keep, n):
        if not isinstance(ax, int):
            return Top("norm", n.loc)
        return self.reduce_axis(
            a, ax, lambda v: self.alg.fn(f"norm{o}", *v), bool(keep), n.loc)

    def o_numpy_cross(self, n):
        a, b = self.arr(n.args[0]), self.arr(n.args[1])
        aa, ab, ac, ax = [self.val(x) for x in n.args[2:6]]
        return self.cross(a, b, aa, ab, ac, ax, n.loc)

    def _unary(name):
        def f(self, n):
            a = self.arr(n.args[0])
            if a.quat:
                return Top(name, n.loc)
            return self.elementwise(getattr(self.alg, name), a, loc=n.loc)
        return f

    o_numpy_sqrt = o_math_sqrt = _unary("sqrt")
    o_numpy_cos = o_math_cos = _unary("cos")
    o_numpy_sin = o_math_sin = _unary("sin")

    def o_numpy_abs(self, n):
        a = self.arr(n.args[0])
        if a.quat:
            return self.elementwise(
                lambda q: self.alg.sqrt(self.qnorm2(q)), a, loc=n.loc)
        return self.elementwise(self.alg.abs, a, loc=n.loc)

    def o_numpy_square(self, n):
        return self.elementwise(lambda x: x * x, self.arr(n.args[0]))

    def o_numpy_power(self, n):
        return self.arith("**", self.arr(n.args[0]), self.arr(n.args[1]),
                          n.loc)

    def _bin(op):
        def f(self, n):
            return self.arith(op, self.arr(n.args[0]), self.arr(n.args[1]),
                              n.loc)
        return f

    o_numpy_add, o_numpy_subtract = _bin("+"), _bin("-")
    o_numpy_multiply, o_numpy_divide = _bin("*"), _bin("/")
    o_numpy_true_divide = _bin("/")

    def o_numpy_negative(self, n):
        return self.elementwise(lambda x: -x, self.arr(n.args[0]))

    def o_numpy_reciprocal(self, n):
        return self.arith("/", self.as_arr(1), self.arr(n.args[0]), n.loc)

    def o_numpy_hypot(self, n):
        return self.elementwise(
            lambda x, y: self.alg.sqrt(x * x + y * y), self.arr(n.args[0]),
            self.arr(n.args[1]), loc=n.loc)

    def o_numpy_arctan2(self, n):
        return self.elementwise(
            lambda y, x: self.alg.angle(x, y), self.arr(n.args[0]),
            self.arr(n.args[1]), loc=n.loc)

    o_math_atan2 = o_numpy_arctan2

    def _fn(name, k):
        def f(self, n):
            a = [self.arr(x) for x in n.args[:k]]
            if any(x.quat for x in a):
                return Top(name, n.loc)
            return self.elementwise(
                lambda *v: self.alg.fn(name, *v), *a, loc=n.loc)
        return f

    o_numpy_maximum = o_numpy_fmax = _fn("maximum", 2)
    o_numpy_minimum = o_numpy_fmin = _fn("minimum", 2)
    o_numpy_sign = _fn("sign", 1)
    o_numpy_exp = _fn("exp", 1)
    o_numpy_log = _fn("log", 1)
    o_numpy_tan = o_math_tan = _fn("tan", 1)
    o_numpy_mod = o_numpy_remainder = _fn("mod", 2)

    def o_numpy_arctan(self, n):
        return self.elementwise(
            lambda y: self.alg.angle(self.alg.num(1), y),
            self.arr(n.args[0]), loc=n.loc)

    def o_numpy_arccos(self, n):
        al = self.alg
        return self.elementwise(
            lambda c: al.angle(c, al.sqrt(al.num(1) - c * c)),
            self.arr(n.args[0]), loc=n.loc)

    def o_numpy_arcsin(self, n):
        al = self.alg
        return self.elementwise(
            lambda s: al.angle(al.sqrt(al.num(1) - s * s), s),
            self.arr(n.args[0]), loc=n.loc)

    def o_numpy_clip(self, n):
        # within its bounds the value is unchanged
        a = self.arr(n.args[0])
        lo, hi = self.ev(n.args[1]), self.ev(n.args[2])
        if lo == -1 and hi == 1:
            return a
        return Arr(a.axes, None, a.quat)

    def o_numpy_broadcast_shapes(self, n):
        axes = ()
        for a in n.args:
            axes = bcast(axes, self._shape_of(a), n.loc)
        return tuple(Sym(x) if isinstance(x, str) else x for x in axes)

    def _shape_of(self, n):
        v = self.val(n)
        if isinstance(v, (int, Sym)):
            v = (v,)
        if isinstance(v, list):
            v = tuple(v)
        if not isinstance(v, tuple):
            raise Bail(Top("shape", n.loc))
        out = []
        for x in v:
            if isinstance(x, Sym):
                out.append(x.label)
            elif isinstance(x, int) and x >= 0:
                out.append(x)
            else:
                raise Bail(Top("shape", n.loc))
        return tuple(out)

    def _fill(self, axes, c):
        return Arr(axes, {ix: self.alg.num(c) for ix in idxs(axes)})

    def o_numpy_zeros(self, n):
        return self._fill(self._shape_of(n.args[0]), 0)

    def o_numpy_ones(self, n):
        return self._fill(self._shape_of(n.args[0]), 1)

    def o_numpy_zeros_like(self, n):
        a = self.arr(n.args[0])
        return Top("zeros_like", n.loc) if a.quat else self._fill(a.axes, 0)

    def o_numpy_ones_like(self, n):
        a = self.arr(n.args[0])
        return Top("ones_like", n.loc) if a.quat else self._fill(a.axes, 1)

    def o_numpy_empty_like(self, n):
        a = self.arr(n.args[0])
        return Arr(a.axes, None, True) if a.quat else self.unset(a.axes)

    def o_numpy_empty(self, n):
        return self.unset(self._shape_of(n.args[0]))

    def unset(self, axes):
        """Memory whose contents are yet to be written."""
        v = self.alg.var("uninitialised")
        return Arr(axes, {k: v for k in idxs(axes)})

    def o_numpy_full_like(self, n):
        a = self.arr(n.args[0])
        if a.quat or len(n.args) > 2 and not is_none(n.args[2]):
            return Top("full_like", n.loc)
        return self.o_numpy_full(n, a.axes)

    def o_numpy_full(self, n, axes=None):
        if axes is None:
            axes = self._shape_of(n.args[0])
        v = self.ev(n.args[1])
        if isinstance(v, (int, float, Rat)) or isinstance(v, Arr) and \
                v.axes == () and v.cells is not None and not v.quat:
            v = self.as_arr(v, n.loc)
            return Arr(axes, {k: v.cells[()] for k in idxs(axes)})
        return Arr(axes, None)

    def o_numpy_isnan(self, n):
        a = self.arr(n.args[0])
        return Arr(a.axes, None)

    def o_numpy_tile(self, n):
        a = self.arr(n.args[0])
        r = self.val(n.args[1])
        if isinstance(r, (int, Sym)):
            r = (r,)
        nd = max(len(r), a.ndim)
        axes = (1,) * (nd - a.ndim) + a.axes
        r = (1,) * (nd - len(r)) + tuple(r)
        out, cells = [], a.cells
        for x, m in zip(axes, r):
            if m == 1:
                out.append(x)
            elif x == 1:
                out.append(m.label if isinstance(m, Sym) else m)
            else:
                raise Bail(Err(f"axis {x} is repeated {m} times", n.loc))
        if cells is not None:
            b = Arr(axes, {(0,) * (sum(isinstance(q, int) for q in
                                       axes[:nd - a.ndim])) + k: c
                           for k, c in cells.items()}, a.quat)
            cells = {ix: cell_at(b, tuple(out), ix) for ix in idxs(out)}
        return Arr(tuple(out), cells, a.quat)

    def o_numpy_broadcast_to(self, n):
        a = self.arr(n.args[0])
        s = self._shape_of(n.args[1])
        ax = bcast(a.axes, s, n.loc)
        if ax != s:
            return Err(f"axes {list(a.axes)} broadcast to {list(s)}", n.loc)
        return Arr(ax, None if a.cells is None else
                   {ix: cell_at(a, ax, ix) for ix in idxs(ax)}, a.quat)

    def o_numpy_reshape(self, n):
        a = self.arr(n.args[0])
        s = self.val(n.args[1])
        if n.op == "m:reshape" and not isinstance(s, (tuple, list)):
            s = tuple(self.val(x) for x in n.args[1:]
                      if not is_none(x))
        if isinstance(s, int):
            s = (s,)
        if isinstance(s, (tuple, list)):
            s = tuple(s)
            lab = tuple(x.label if isinstance(x, Sym) else x for x in s)
            if lab == a.axes:
                return a
            core = [x for x in a.axes if x != 1]
            want = [x for x in lab if x != 1]
            if len(core) == len(want) and want.count(-1) <= 1 and all(
                    x == y or y == -1 for x, y in zip(core, want)):
                while 1 in a.axes:
                    a = self.drop(a, a.axes.index(1), 0)
                for i, x in enumerate(lab):
                    if x == 1:
                        a = self.expand(a, i, n.loc)
                return a
            if len(s) == 2 and s[0] == -1 and a.axes and a.axes[-1] == s[1]:
                rest = a.axes[:-1]
                if any(isinstance(x, int) and x != 1 for x in rest):
                    return Top("reshape", n.loc)
                return Arr(("*".join(map(str, [x for x in rest if x != 1]))
                            or 1, s[1]), a.cells if all(
                                isinstance(x, str) for x in rest) and rest
                           else None, a.quat)
            if len(s) == 2 and s[0] == -1 and a.axes and \
                    a.axes[-1] != s[1]:
                return Err(f"axes {list(a.axes)} are regrouped into rows of "
                           f"{s[1]}: components are mixed", n.loc)
        return Top("reshape", n.loc)

    o_m_reshape = o_numpy_reshape

    def o_quaternion_as_quat_array(self, n):
        return self.to_quat(self.arr(n.args[0]), n.loc)

    def o_quaternion_as_float_array(self, n):
        return self.to_float(self.arr(n.args[0]))

    def o_quaternion_quaternion(self, n):
        c = []
        for a in n.args:
            x = self.arr(a)
            if x.axes or x.cells is None:
                return Top("quaternion", n.loc)
            c.append(x.cells[()])
        if len(c) == 4:
            return Arr((), {(): tuple(c)}, True)
        return Top("quaternion", n.loc)

    def o_m_conjugate(self, n):
        a = self.arr(n.args[0])
        if a.quat:
            return self.elementwise(self.qconj, a, quat=True)
        return a

    o_m_conj = o_numpy_conjugate = o_numpy_conj = o_m_conjugate

    def o_m_inverse(self, n):
        a = self.arr(n.args[0])
        return self.elementwise(self.qinv, a, quat=True) if a.quat else \
            Top("inverse", n.loc)

    def o_m_norm(self, n):
        return Top("norm", n.loc)

    def o_quaternion_from_rotation_vector(self, n):
        a = self.arr(n.args[0])
        if not a.axes or a.axes[-1] != 3:
            return Err(f"axes {list(a.axes)} read as rotation vectors",
                       n.loc)
        al = self.alg
        if a.cells is None:
            return Arr(a.axes[:-1], None, True)
        V = [self.drop(a, a.ndim - 1, i) for i in range(3)]

        def f(x, y, z):
            nz = [c for c in (x, y, z) if not al.iszero(c)]
            if len(nz) <= 1:
                t = (nz[0] if nz else al.num(0)) / 2
                c, s = al.cos(t), al.sin(t)
                o = al.num(0)
                if not nz:
                    return (al.num(1), o, o, o)
                return (c,) + tuple(s if not al.iszero(q) else o
                                    for q in (x, y, z))
            m = al.sqrt(x * x + y * y + z * z)
            c, s = al.cos(m / 2), al.sin(m / 2)
            return (c, s * x / m, s * y / m, s * z / m)
        return self.elementwise(f, *V, quat=True, loc=n.loc)

    def o_quaternion_rotate_vectors(self, n):
        """Outer product of rotations and vectors."""
        q, v = self.arr(n.args[0]), self.arr(n.args[1])
        ax = self.int(n.args[2])
        if not q.quat:
            return Top("rotate_vectors", n.loc)
        i = self.ax(ax, v.ndim, n.loc)
        if v.axes[i] != 3:
            return Err(f"axis of length {v.axes[i]} is rotated", n.loc)
        w = self.move(v, i, v.ndim - 1)
        axes = q.axes + w.axes
        if q.cells is None or w.cells is None:
            out = Arr(axes, None)
        else:
            cells = {}
            nq = sum(isinstance(x, int) for x in q.axes)
            for ix in idxs(axes):
                qc = q.cells[ix[:nq]]
                wi = ix[nq:]
                vec = [w.cells[wi[:-1] + (k,)] for k in range(3)]
                cells[ix] = self.rot(qc, vec)[wi[-1]]
            out = Arr(axes, cells)
        return self.move(out, out.ndim - 1, i + q.ndim)

    def rot(self, q, v):
        """v rotated by q: v + 2 s (r x v)/N + 2 r x (r x v)/N."""
        s, r = q[0], q[1:]

        def cr(a, b):
            return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                    a[0] * b[1] - a[1] * b[0]]
        N_ = self.qnorm2(q)
        rv = cr(r, v)
        rrv = cr(r, rv)
        return [v[i] + 2 * (s * rv[i] + rrv[i]) / N_ for i in range(3)]


def sym_array(alg, name, axes, quat=False):
    """Array of free variables."""
    ii = idxs(axes)
    if quat:
        return Arr(axes, {ix: tuple(alg.var(f"{name}{list(ix) or ''}.{c}")
                                    for c in "wxyz") for ix in ii}, True)
    return Arr(axes, {ix: alg.var(f"{name}{list(ix) or ''}") for ix in ii})


def compare(alg, got, want):
    """(status, text): status True / False / None."""
    if isinstance(got, Err):
        return False, got.msg
    if not isinstance(got, Arr):
        return None, repr(got)
    if got.axes != want.axes or got.quat != want.quat:
        return False, (f"result has axes {list(got.axes)}"
                       f"{' (quaternion)' if got.quat else ''}, specified "
                       f"{list(want.axes)}"
                       f"{' (quaternion)' if want.quat else ''}")
    if want.cells is None:
        return True, f"axes {list(got.axes)}"
    if got.cells is None:
        return None, "component expressions unknown"
    res = True
    for ix in want.cells:
        g, w = got.cells[ix], want.cells[ix]
        gs = g if got.quat else (g,)
        ws = w if want.quat else (w,)
        for a, b in zip(gs, ws):
            c = alg.compare(a, b)
            if c is False:
                return False, (f"component {ix or ''} is "
                               f"{str(alg.reduce(a))[:160]}, specified "
                               f"{str(alg.reduce(b))[:160]}")
            if c is None:
                res = None
    return res, "components agree" if res else "components not comparable"
