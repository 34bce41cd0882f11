"""C31: quaternion utilities (inverse, product, mean)."""
import itertools

from ..dom.arrays import Arr
from . import formula as F_, lemmas


def check(ctx, rep):
    lemmas.qinv(ctx, rep, deep=True)
    lemmas.qmul(ctx, rep, deep=True)
    for shp in ([("t", 4)], [("t", "q!")], [],
                [("t", 4), ("t", "q!")], [("t", "q!"), ("t", 4)],
                [("t", "q!"), ("t", "q!"), ("t", 4)]):
        F_.rejects(ctx, rep, "utils.qmul",
                   {f"*{i}": s for i, s in enumerate(shp)}, {},
                   ("ValueError",), "qmul")
    small(ctx, rep)
    qmean(ctx, rep)


def small(ctx, rep):
    """Axes as short as, or shorter than, that of the components."""
    for axes, ax in (((4, 4), -1), ((4, 4), 0), ((1, 4), -1), ((4, 1), 0),
                     ((4, 4, 4), 1), ((3, 4), -1), ((1, "q!"), -1)):
        def want(E, arrs, ax=ax, axes=axes):
            return F_.mapped([(arrs["q"], ax)], lambda q: E.qinv(tuple(q)),
                             4, ax, axes[-1] == "q!")
        F_.case(ctx, rep, "utils.qinv", {"q": axes}, {"qaxis": ax}, want,
                name="qinv")
        for n in (2, 3):
            def want(E, arrs, ax=ax, axes=axes):
                return F_.mapped([(a, ax) for a in arrs.values()],
                                 lambda *q: mul(E, q), 4, ax,
                                 axes[-1] == "q!")
            F_.case(ctx, rep, "utils.qmul",
                    {f"*{i}": axes for i in range(n)}, {"qaxis": ax}, want,
                    name="qmul")


def mul(E, qs):
    v = tuple(qs[0])
    for q in qs[1:]:
        v = E.qmul(v, tuple(q))
    return v


def qmean(ctx, rep):
    cases = [(("t", 4), {}), (("t", "q!"), {}), (("t", 4), {"axis": 0}),
             (("t", "q!"), {"axis": 0}), (("t", "n", 4), {}),
             (("t", "n", 4), {"axis": 0}), (("t", "n", 4), {"axis": 1}),
             (("t", "n", 4), {"axis": -1}), (("t", "n", 4), {"axis": (0, 1)}),
             (("t", "n", "q!"), {"axis": 1}),
             (("t", "n", "q!"), {"axis": -2}),
             (("t", "n", "m", 4), {"axis": (0, 2)}),
             (("t", "n", "m", 4), {"axis": (0, -1)}),
             ((4, "t"), {"qaxis": 0}), (("t", 4, "n"), {"qaxis": 1}),
             ((1, 4), {"axis": 0}), ((1, 4), {}), ((3, 4), {}),
             ((1, "t", 4), {"axis": 0}), ((1, "t", 4), {"axis": 1}),
             (("t", 1, 4), {"axis": 1}), ((4, 4), {"axis": 0}),
             ((1, "q!"), {"axis": 0}), ((2, "t", 4), {"axis": 0}),
             ((4, 4), {"qaxis": 0}),
             (("t", 4, "n"), {"qaxis": 1, "axis": 0}),
             (("t", 4, "n"), {"qaxis": -2, "axis": 0}),
             ((4, "t", "n"), {"qaxis": 0, "axis": 1}),
             ((4, "t", "n"), {"qaxis": -3, "axis": 1}),
             (("t", "n", 4, "m"), {"qaxis": 2, "axis": (0, 1)}),
             (("t", "n", 4, "m"), {"qaxis": -2, "axis": 1})]
    for axes, kw in cases:
        def want(E, arrs, axes=axes, kw=kw):
            quat = axes[-1] == "q!"
            a = list(arrs["q"].axes)
            at = len(a) - 1
            if not quat:
                at = kw.get("qaxis", -1) % len(a)
                a.pop(at)
            ax = kw.get("axis")
            if at < len(a):
                # axes of the given array
                ax = tuple(x - (x > at) for x in (
                    ax if isinstance(ax, tuple) else (ax,))) \
                    if ax is not None else None
            ids = range(len(a)) if ax is None else \
                [x % len(a) for x in (ax if isinstance(ax, tuple)
                                      else (ax,))]
            m = E.alg.num(1)
            A = F_.mapped([(arrs["q"], kw.get("qaxis", -1))],
                          lambda q: [x * y for x, y in
                                     itertools.product(q, q)], 16, -1)
            for i in sorted(ids, reverse=True):
                A = total(E, A, i)
                m = m * E.length(a[i])
            out = at - sum(i < at for i in ids) if at < len(a) and \
                ax is not None else -1
            return F_.mapped([(A, -1)],
                             lambda v: E.topvec([x / m for x in v]), 4, out,
                             quat)
        F_.case(ctx, rep, "utils.qmean", {"q": axes}, kw, want, "qmean")
    for axes, ax in ((("t", 4), 1), (("t", 4), -2), (("t", "q!"), 1),
                     (("t", "n", 4), 2), (("t", "n", 4), (0, 2))):
        F_.rejects(ctx, rep, "utils.qmean", {"q": axes}, {"axis": ax},
                   ("IndexError",), "qmean")


def total(E, A, i):
    """Sum along the axis i."""
    x = A.axes[i]
    axes = A.axes[:i] + A.axes[i + 1:]
    if isinstance(x, str):
        return Arr(axes, {k: E.total(x, v) for k, v in A.cells.items()})
    p = sum(isinstance(y, int) for y in A.axes[:i])
    out = {}
    for k, v in A.cells.items():
        j = k[:p] + k[p + 1:]
        out[j] = out[j] + v if j in out else v
    return Arr(axes, out)
