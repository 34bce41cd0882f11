"""C36: shortest-arc rotation: minimal rotation taking v1's direction to
v2's, as a unit quaternion along the vectors' axis."""
from ..dom.arrays import bcast
from . import formula as F_

F = "estimators.shortest_arc_rotation"


def arc(E, a, b):
    al = E.alg

    def dot(x, y):
        return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]
    n1, n2 = dot(a, a), dot(b, b)
    q = [al.sqrt(n1) * al.sqrt(n2) + dot(a, b),
         a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
         a[0] * b[1] - a[1] * b[0]]
    n = al.sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3])
    return [c / n for c in q]


def check(ctx, rep):
    for a, b, kw in (((3,), (3,), {}), (("t", 3), ("t", 3), {}),
                     ((3, "t"), (3, "t"), {"axis": 0}),
                     (("t", 3, "n"), ("t", 3, "n"), {"axis": 1}),
                     (("t", 3, "n"), ("t", 3, "n"), {"axis": -2}),
                     (("t", "n", 3), ("t", "n", 3), {}),
                     (("t", "n", 3), ("t", "n", 3), {"axis": 2}),
                     ((3, "t", "n"), (3, "t", "n"), {"axis": -3}),
                     (("t", 3), (1, 3), {}), ((1, 3), ("t", 3), {}),
                     (("t", "n", "m", 3), ("t", "n", "m", 3), {})):
        def want(E, arrs, kw=kw):
            ax = kw.get("axis", -1)
            v = arc(E, F_.comps(arrs["v1"], ax), F_.comps(arrs["v2"], ax))
            axes = list(bcast(arrs["v1"].axes, arrs["v2"].axes))
            axes[ax] = 4
            return F_.build(tuple(axes), ax, v)
        F_.case(ctx, rep, F, {"v1": a, "v2": b}, kw, want,
                "shortest_arc_rotation")
    for a, kw in (((3, 3), {}), ((3, 3), {"axis": 0}), ((1, 3), {}),
                  ((2, 3, 4), {"axis": 1}), ((4, 3), {})):
        def want(E, arrs, kw=kw):
            ax = kw.get("axis", -1)
            return F_.mapped([(arrs["v1"], ax), (arrs["v2"], ax)],
                             lambda x, y: arc(E, x, y), 4, ax)
        F_.case(ctx, rep, F, {"v1": a, "v2": a}, kw, want,
                "shortest_arc_rotation")
