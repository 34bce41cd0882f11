"""Derivatives, gaps and row selections along the time axis.

Extends the component algebra of dom/arrays.py: a time stamp is the variable
`tau` (seconds) times the number of ticks per second of its unit, the
derivative along a batch axis is a linear operator on component expressions,
and a boolean row selection renames the batch axis by its condition.
"""
from ..ir import cval, is_const, is_none
from .algebra import ONE, Rat
from .arrays import (ELL, Arr, ArrayEval, Bail, Dtype, Err, Mask, Obj, Slice,
                     Sym, Top)

TICKS = {"s": 1, "ms": 10**3, "us": 10**6, "ns": 10**9, "m": None, "D": None}


class Stamps:
    """datetime64 array of some unit along axis `label`."""

    def __init__(self, axes, unit):
        self.axes, self.unit = tuple(axes), unit

    def __repr__(self):
        return f"datetime64[{self.unit}]{list(self.axes)}"

    def __eq__(self, o):
        return isinstance(o, Stamps) and (self.axes, self.unit) == (
            o.axes, o.unit)

    def __hash__(self):
        return hash(self.axes)


class DType(Dtype):
    def __init__(self, stamps, unit=None):
        super().__init__(False)
        self.stamps, self.unit = stamps, unit


def kwargs(n, names):
    """Arguments by name; `names` lists the positional ones."""
    kw = n.meta if isinstance(n.meta, tuple) else ()
    k = len(n.args) - len(kw)
    out = dict(zip(names, n.args[:k]))
    out.update(zip(kw, n.args[k:]))
    return out


class TimeEval(ArrayEval):
    nans = False

    # -- stamps
    def tau(self):
        return self.alg.var("tau")

    def unit_of(self, n):
        if n.op == "numpy.dtype" and n.args:
            n = n.args[0]
        if n.op == "const" and isinstance(cval(n), str):
            s = cval(n)
            for p in ("datetime64[", "timedelta64[", "<M8[", "M8[", "<m8["):
                if s.startswith(p):
                    return s[len(p):-1]
        return None

    def cmp(self, n):
        for x, y in (n.args, n.args[::-1]):
            if n.meta not in ("==", "!=", "is", "is not"):
                break
            if x.op == "attr" and x.meta in ("str", "name") and \
                    y.op == "const":
                x = x.args[0]
            elif x.op == "attr" and x.meta != "dtype":
                continue
            u = self.unit_of(y)
            if u is None or x.op == "const":
                continue
            d = self.ev(x)
            if isinstance(d, DType) and (d.unit or not d.stamps):
                return (d.unit == u) == (n.meta in ("==", "is"))
        return super().cmp(n)

    def o_m_astype(self, n):
        v = self.val(n.args[0])
        if not isinstance(v, Stamps):
            return self._copy(n)
        return self.cast(v, n.args[1], n)

    def made(self, n):
        """numpy.asarray and the like, with a dtype."""
        v = self.val(n.args[0])
        if not isinstance(v, Stamps) or len(n.args) < 2 or \
                is_none(n.args[1]):
            return self._copy(n)
        return self.cast(v, n.args[1], n)

    o_numpy_asarray = o_numpy_array = made

    def cast(self, v, t, n):
        u = self.unit_of(t)
        if u is not None:
            if TICKS.get(u) is None:
                return Top("unit " + u, n.loc)
            if TICKS[u] < TICKS[v.unit]:
                return Err(f"stamps are truncated to {u}", n.loc)
            return Stamps(v.axes, u)
        q = t.meta if t.op == "extern" else cval(t) if t.op == "const" \
            else None
        if q in ("builtins.float", "builtins.int", "numpy.float64",
                 "numpy.int64", "float", "int", "float64", "int64", "i8",
                 "f8"):
            return Arr(v.axes, {(): self.tau() * self.alg.num(
                TICKS[v.unit])})
        return Top("astype", n.loc)

    def o_numpy_issubdtype(self, n):
        d = self.val(n.args[0])
        t = n.args[1]
        q = t.meta if t.op == "extern" else None
        if isinstance(d, DType):
            if q == "numpy.datetime64":
                return d.stamps
            if q in ("numpy.number", "numpy.floating"):
                return not d.stamps
        return Top("issubdtype", n.loc)

    def o_attr(self, n):
        v = self.val(n.args[0])
        if isinstance(v, Stamps):
            if n.meta == "dtype":
                return DType(True, v.unit)
            if n.meta == "ndim":
                return len(v.axes)
            if n.meta in ("values", "data"):
                return v
            return Top("attr", n.loc)
        if isinstance(v, Arr) and n.meta == "dtype" and not v.quat:
            return DType(False)
        if isinstance(v, DType) and n.meta == "kind":
            return "M" if v.stamps else "f"
        return super().o_attr(n)

    # -- derivative
    def seconds_of(self, t):
        """Factor c with t = c * tau, or None."""
        r = t / self.tau()
        return r.const()

    def D(self, lab, x, t):
        c = self.seconds_of(t)
        if c is None:
            return self.alg.fn("d:" + lab, x, t)
        if x.d != ONE:
            return self.alg.fn("d:" + lab, x) / self.alg.num(c)
        out = self.alg.num(0)
        for m, k in x.n.items():
            if m == ():
                continue
            out = out + self.alg.fn("d:" + lab, Rat(
                {m: k / k}, ONE, self.alg)) * self.alg.num(k / c)
        return out

    def gradient(self, a, t, ax, loc):
        i = self.ax(ax, a.ndim, loc)
        lab = a.axes[i]
        if not isinstance(lab, str):
            return Err("derivative along the component axis", loc)
        if t is None:
            t = Arr((lab,), {(): self.alg.var("sample number")})
        if not t.axes:
            t = Arr((lab,), {(): t.cells[()] * self.alg.var(
                "sample number")})
        if t.axes != (lab,):
            return Err(f"derivative along axis {lab} with respect to stamps "
                       f"of axis {list(t.axes)}", loc)
        if a.cells is None or t.cells is None:
            return Arr(a.axes, None, a.quat)
        tc = t.cells[()]
        if a.quat:
            return Arr(a.axes, {k: tuple(self.D(lab, c, tc) for c in v)
                                for k, v in a.cells.items()}, True)
        return Arr(a.axes, {k: self.D(lab, v, tc)
                            for k, v in a.cells.items()})

    def times(self, n):
        """Array of stamps given to a numerical routine."""
        v = self.val(n)
        if isinstance(v, Stamps):
            raise Bail(Err(f"{v!r} used as numbers", n.loc))
        return self.as_arr(v, n.loc)

    def o_numpy_gradient(self, n):
        k = kwargs(n, ("f", "t"))
        a = self.arr(k["f"])
        ax = self.val(k["axis"]) if "axis" in k else None
        if ax is None:
            if a.ndim != 1:
                return Err("gradient along every axis", n.loc)
            ax = 0
        t = self.times(k["t"]) if "t" in k else None
        return self.gradient(a, t, ax, n.loc)

    def o_quaternion_derivative(self, n):
        k = kwargs(n, ("f", "t", "axis"))
        a = self.arr(k["f"])
        ax = self.int(k["axis"]) if "axis" in k else 0
        return self.gradient(a, self.times(k["t"]), ax, n.loc)

    o_quaternion_calculus_derivative = o_quaternion_derivative

    def o_numpy_diff(self, n):
        a = self.arr(n.args[0])
        k = self.int(n.args[1]) if len(n.args) > 1 else 1
        i = self.ax(self.int(n.args[2]) if len(n.args) > 2 else -1,
                    a.ndim, n.loc)
        lab = a.axes[i]
        if not isinstance(lab, str):
            return Top("differences of components", n.loc)
        cells = None if a.cells is None or a.quat else dict(a.cells)
        for _ in range(k):
            if cells is not None:
                cells = {ix: self.alg.fn(f"diff:{lab}", c)
                         for ix, c in cells.items()}
            lab = self.shorter(lab, 1)
        axes = a.axes[:i] + (lab,) + a.axes[i + 1:]
        return Arr(axes, cells, a.quat if cells is None else False)

    def shorter(self, lab, d):
        """The label of a batch axis with d samples less."""
        for sep, sign in (("-", 1), ("+", -1)):
            l, _, k = lab.rpartition(sep)
            if l and k.isdigit():
                lab, d = l, d + sign * int(k)
                break
        return lab if d == 0 else f"{lab}-{d}" if d > 0 else f"{lab}+{-d}"

    def o_quaternion_as_rotation_vector(self, n):
        a = self.arr(n.args[0])
        if not a.quat:
            return Err("rotation vectors of a float array", n.loc)
        if a.cells is None:
            return Arr(a.axes + (3,), None)
        return Arr(a.axes + (3,), {
            k + (i,): self.alg.fn(f"rotvec{i}", *c)
            for k, c in a.cells.items() for i in range(3)})

    # -- stacking of 1-d pieces
    def pieces(self, parts, n):
        """1-d concatenation of one batch axis and constant samples."""
        arrs = [self.as_arr(p, n.loc) for p in parts]
        if any(a.ndim > 1 for a in arrs):
            if len({a.ndim for a in arrs}) > 1:
                return Err("pieces of different numbers of dimensions are "
                           "concatenated", n.loc)
            return None
        batch = [i for i, a in enumerate(arrs)
                 if a.axes and isinstance(a.axes[0], str)]
        if not batch:
            k = sum(a.axes[0] if a.axes else 1 for a in arrs)
            c = [x for a in arrs if a.cells is not None
                 for _, x in sorted(a.cells.items())]
            return Arr((k,), dict(zip([(j,) for j in range(k)], c))
                       if len(c) == k else None)
        if len(batch) != 1:
            return None
        i = batch[0]
        pre = sum(a.axes[0] if a.axes else 1 for a in arrs[:i])
        post = sum(a.axes[0] if a.axes else 1 for a in arrs[i + 1:])
        lab = self.shorter(arrs[i].axes[0], -pre - post)
        c = arrs[i].cells
        return Arr((lab,), c and {(): self.alg.fn(
            f"pad{pre},{post}", c[()])})

    def o_numpy_hstack(self, n):
        parts = self.val(n.args[0])
        r = self.pieces(parts, n)
        return r if r is not None else Top("hstack", n.loc)

    def o_numpy_append(self, n):
        parts = [self.val(x) for x in n.args[:2]]
        if any(isinstance(p, Arr) and p.ndim == 1 and
               isinstance(p.axes[0], str) for p in parts) and (
                   len(n.args) < 3 or is_none(n.args[2])):
            r = self.pieces(parts, n)
            if r is not None:
                return r
        f = getattr(super(), "o_numpy_append", None)
        return f(n) if f else Top("append", n.loc)

    def o_numpy_pad(self, n):
        a, w = self.arr(n.args[0]), self.val(n.args[1])
        if isinstance(w, int):
            w = (w, w)
        if len(n.args) > 3 or n.meta or a.ndim != 1 or not isinstance(
                w, (tuple, list)) or len(w) != 2 or not all(
                    isinstance(x, int) for x in w) or len(n.args) > 2 and \
                not is_const(n.args[2], "constant"):
            return Top("pad", n.loc)
        r = self.pieces([x for x in ([0.0] * w[0], a, [0.0] * w[1])
                         if x is a or x], n)
        return r if r is not None else Top("pad", n.loc)

    def o_numpy_concatenate(self, n):
        parts = self.val(n.args[0])
        if isinstance(parts, (list, tuple)) and any(
                isinstance(p, Arr) and p.ndim == 1 and
                isinstance(p.axes[0], str) for p in parts):
            r = self.pieces(parts, n)
            if r is not None:
                return r
        return super().o_numpy_concatenate(n)

    # -- conditions and row selection
    def flag(self, a):
        a.boolean = True
        return a

    def isbool(self, a):
        return getattr(a, "boolean", False)

    def o_numpy_isnan(self, n):
        a = self.arr(n.args[0])
        if a.cells is None or a.quat:
            return Top("isnan", n.loc)
        return self.flag(Arr(a.axes, {
            k: self.alg.fn("isnan", c) if self.nans else self.alg.num(0)
            for k, c in a.cells.items()}))

    def o_numpy_isfinite(self, n):
        r = self.o_numpy_isnan(n)
        return self.negate(r) if isinstance(r, Arr) else r

    def negate(self, a):
        return self.flag(self.elementwise(self.opposite, a))

    def opposite(self, x):
        for y, neg in ((x, False), (self.alg.num(1) - x, True)):
            s = self.alg.single(y)
            if s is not None and s[0] in ("fn:lt", "fn:le"):
                if neg:
                    return y
                return self.alg.fn("le" if s[0] == "fn:lt" else "lt",
                                   s[1][1], s[1][0])
        return self.alg.num(1) - x

    def o_numpy_logical_not(self, n):
        return self.negate(self.arr(n.args[0]))

    o_numpy_invert = o_numpy_logical_not

    def o_unop(self, n):
        v = self.val(n.args[0])
        if n.meta == "~" and isinstance(v, Arr) and self.isbool(v):
            return self.negate(v)
        return super().o_unop(n)

    def o_cmp(self, n):
        r = super().o_cmp(n)
        return self.flag(r) if isinstance(r, Arr) else r

    def _or(self, xs):
        xs = [x for x in xs if x.const() != 0]
        if any(x.const() == 1 for x in xs):
            return self.alg.num(1)
        if not xs:
            return self.alg.num(0)
        if len(xs) == 1:
            return xs[0]
        return self.alg.fn("or", *sorted(xs, key=repr))

    def _any(self, lab, c):
        """Disjunction along a batch axis, inside finite disjunctions."""
        if c.const() is not None:
            return c
        s = self.alg.single(c)
        if s is not None and s[0] == "fn:or":
            return self._or([self._any(lab, x) for x in s[1]])
        return self.alg.fn("any:" + lab, c)

    def quantify(self, n, neg):
        a = self.arr(n.args[0])
        if not self.isbool(a):
            return Top("any/all", n.loc)
        ax = self.val(n.args[1]) if len(n.args) > 1 else None
        ax = tuple(range(a.ndim)) if ax is None else ax if isinstance(
            ax, (tuple, list)) else (ax,)
        if neg:
            a = self.negate(a)
        for i in sorted((self.ax(i, a.ndim, n.loc) for i in ax),
                        reverse=True):
            lab = a.axes[i]
            if isinstance(lab, str):
                a = Arr(a.axes[:i] + a.axes[i + 1:], {
                    k: self._any(lab, c) for k, c in a.cells.items()})
            else:
                a = self.reduce_axis(a, i, self._or)
        self.flag(a)
        return self.negate(a) if neg else a

    def o_numpy_any(self, n):
        return self.quantify(n, False)

    def o_numpy_all(self, n):
        return self.quantify(n, True)

    o_m_any, o_m_all = o_numpy_any, o_numpy_all

    def as_mask(self, x, loc):
        if not (isinstance(x, Arr) and self.isbool(x)):
            return x
        if x.ndim == 1 and isinstance(x.axes[0], int):
            m = Mask(f"{x.axes[0]}[]")
            m.of = x.axes[0]
            return m
        if x.ndim != 1 or x.cells is None:
            raise Bail(Top("boolean index", loc))
        c = x.cells[()]
        if c.const() == 1:
            m = Slice(None, None, None)
            m.of = x.axes[0]
            return m
        m = Mask(f"{x.axes[0]}[{c!r}]")
        m.of, m.cell = x.axes[0], c
        return m

    def masks(self, ix, loc):
        if isinstance(ix, list) and any(isinstance(x, Slice) for x in ix):
            # made by tuple(...): a list of slices is no index
            ix = tuple(ix)
        return tuple(self.as_mask(x, loc) for x in ix) if isinstance(
            ix, tuple) else self.as_mask(ix, loc)

    def index(self, a, ix, loc=None):
        ix = self.masks(ix, loc)
        items = ix if isinstance(ix, tuple) else (ix,)
        if ELL not in [x for x in items if x is ELL]:
            for lab, x in zip(a.axes, items):
                if isinstance(x, Mask) and isinstance(x.of, int):
                    if lab != x.of:
                        raise Bail(Err(f"boolean index of length {x.of} for "
                                       f"axis {lab}", loc))
                    raise Bail(Top("boolean index", loc))
                if isinstance(x, Slice) and getattr(x, "of", lab) != lab:
                    raise Bail(Err(f"row selection for axis {x.of} applied "
                                   f"to axis {lab}", loc))
        return super().index(a, ix, loc)

    def o_item(self, n):
        v = self.val(n.args[0])
        if isinstance(v, Stamps):
            m = self.masks(self.val(n.args[1]), n.loc)
            if isinstance(m, Mask):
                if m.of != v.axes[0]:
                    return Err("row selection of another axis", n.loc)
                return Stamps((m.label,), v.unit)
            if isinstance(m, Slice) and m.full:
                return v
            return Top("stamps", n.loc)
        if isinstance(v, Arr) and self.isbool(v):
            r = super().o_item(n)
            return self.flag(r) if isinstance(r, Arr) else r
        return super().o_item(n)

    def assign(self, b, i, v, n):
        i = self.masks(i, n.loc)
        items = list(i) if isinstance(i, tuple) else [i]
        ms = [x for x in items if isinstance(x, Mask)]
        if ms and b.cells is None and not b.quat:
            self.index(b, i, n.loc)
            return Arr(b.axes, None)
        if len(ms) == 1 and b.cells is not None and v.cells is not None \
                and not b.quat:
            tgt = self.index(b, i, n.loc)
            if v.axes == tgt.axes and len(tgt.axes) == len(b.axes):
                c = ms[0].cell
                return Arr(b.axes, {
                    k: self.alg.fn("where", c, v.cells[k], b.cells[k])
                    for k in b.cells})
            bcast_ok = v.axes == ()
            if not bcast_ok and v.axes != tgt.axes:
                return Err(f"value with axes {list(v.axes)} stored into "
                           f"axes {list(tgt.axes)}", n.loc)
            return Arr(b.axes, None)
        return super().assign(b, i, v, n)

    # -- the first samples, as many as are selected by a condition
    def count(self, n):
        a = self.arr(n.args[0])
        if self.isbool(a) and a.ndim == 1 and isinstance(a.axes[0], str) \
                and all(is_none(x) for x in n.args[1:2]):
            m = self.as_mask(a, n.loc)
            return Sym(m.label if isinstance(m, Mask) else m.of)
        return None

    def o_numpy_sum(self, n):
        c = self.count(n)
        return super().o_numpy_sum(n) if c is None else c

    o_m_sum = o_numpy_sum

    def o_numpy_count_nonzero(self, n):
        c = self.count(n)
        return Top("count", n.loc) if c is None else c

    def slice_axis(self, a, i, s, loc):
        lab = a.axes[i]
        if isinstance(lab, str) and s.a is None and s.c in (None, 1) and \
                isinstance(s.b, Sym) and s.b.label.startswith(lab + "["):
            if a.cells is None:
                return Arr(a.axes[:i] + (f"{lab}[:{s.b!r}]",) +
                           a.axes[i + 1:], None, a.quat)
            return Arr(a.axes[:i] + (f"{lab}[:{s.b!r}]",) + a.axes[i + 1:],
                       a.cells, a.quat)
        return super().slice_axis(a, i, s, loc)

    # -- positions selected by a condition
    def o_numpy_flatnonzero(self, n):
        m = self.as_mask(self.val(n.args[0]), n.loc)
        return m if isinstance(m, (Mask, Slice)) else Top("positions", n.loc)

    def o_numpy_nonzero(self, n):
        m = self.o_numpy_flatnonzero(n)
        return m if isinstance(m, Top) else (m,)

    o_m_nonzero = o_numpy_nonzero

    def o_numpy_where(self, n):
        if all(is_none(x) for x in n.args[1:]):
            return self.o_numpy_nonzero(n)
        return super().o_numpy_where(n)

    def o_numpy_take(self, n):
        i = self.val(n.args[1])
        if isinstance(i, tuple) and len(i) == 1 and isinstance(i[0], Mask):
            i = i[0]
        if isinstance(i, Mask) or isinstance(i, Slice) and i.full:
            a, ax = self.val(n.args[0]), self.val(n.args[2])
            if isinstance(a, Stamps):
                return Stamps((i.label,), a.unit) if isinstance(i, Mask) \
                    and i.of == a.axes[0] else Top("take", n.loc)
            a = self.arr(n.args[0])
            if ax is None:
                return Top("take", n.loc)
            k = self.ax(ax, a.ndim, n.loc)
            return self.index(a, (Slice(None, None, None),) * k + (i,),
                              n.loc)
        return super().o_numpy_take(n)

    def o_numpy_compress(self, n):
        k = kwargs(n, ("condition", "a", "axis"))
        c = self.arr(k["condition"])
        a = self.arr(k["a"])
        ax = self.val(k["axis"]) if "axis" in k else None
        if ax is None:
            return Top("compress", n.loc)
        i = self.ax(ax, a.ndim, n.loc)
        return self.index(a, (Slice(None, None, None),) * i + (c,), n.loc)

    def o_extern(self, n):
        if n.meta in ("numpy.nan", "numpy.NaN", "math.nan"):
            return self.alg.var("nan")
        return super().o_extern(n)

    # -- interpolation and filters
    def o_scipy_interpolate_interp1d(self, n):
        k = kwargs(n, ("x", "y", "kind", "axis", "copy", "bounds_error",
                       "fill_value"))
        kind, fill = (cval(k[q]) if q in k and k[q].op == "const" else None
                      for q in ("kind", "fill_value"))
        if kind in ("nearest", "nearest-up", "zero", "previous", "next"):
            return Err(f"values are repeated ({kind}), not interpolated",
                       n.loc)
        if isinstance(fill, (int, float)) and fill == fill:
            return Err(f"values outside the samples are set to {fill}",
                       n.loc)
        x, y = self.times(k["x"]), self.arr(k["y"])
        i = self.ax(self.int(k["axis"]) if "axis" in k else -1, y.ndim,
                    n.loc)
        if x.ndim != 1 or y.axes[i] != x.axes[0]:
            return Err(f"values along axis {y.axes[i]} interpolated at "
                       f"points of axis {list(x.axes)}", n.loc)
        return Obj("interp", x=x, y=y, i=i)

    def o_applied(self, n):
        f = self.val(n.args[0])
        if not (isinstance(f, Obj) and f.kind == "interp"):
            return Top("applied", n.loc)
        t = self.times(n.args[1])
        if t.ndim != 1:
            return Top("interpolation", n.loc)
        axes = f.y.axes[:f.i] + t.axes + f.y.axes[f.i + 1:]
        if f.y.cells is None or not isinstance(t.axes[0], str):
            return Arr(axes, None)
        return Arr(axes, {k: self.alg.fn(
            "interp:" + f.x.axes[0], c, f.x.cells[()], t.cells[()])
            for k, c in f.y.cells.items()})

    def o_scipy_signal_filtfilt(self, n):
        return self.filt(n, "filtfilt")

    def o_scipy_signal_sosfiltfilt(self, n):
        return self.filt(n, "filtfilt")

    def o_scipy_signal_lfilter(self, n):
        return self.filt(n, "lfilter")

    o_scipy_signal_sosfilt = o_scipy_signal_lfilter

    def filt(self, n, name):
        kw = n.meta if isinstance(n.meta, tuple) else ()
        pos = n.args[:len(n.args) - len(kw)]
        named = dict(zip(kw, n.args[len(pos):]))
        if name == "filtfilt" and n.op.endswith("filtfilt") and len(
                pos) == 4 and not any(a.op == "star" for a in pos):
            named["axis"] = pos[3]
        x = None
        lead = 0
        for a in pos:
            if a.op == "star":
                lead += 2
                continue
            if lead == 2:
                x = self.arr(a)
                break
            lead += 1
        if x is None and "x" in named:
            x = self.arr(named["x"])
        if x is None or x.cells is None:
            return Top("filter", n.loc)
        i = self.ax(self.int(named["axis"]) if "axis" in named else -1,
                    x.ndim, n.loc)
        if not isinstance(x.axes[i], str):
            return Err("filtered along the component axis", n.loc)
        return Arr(x.axes, {k: self.alg.fn(f"{name}:{x.axes[i]}", c)
                            for k, c in x.cells.items()})
