"""C22: rotating vectors by quaternions of any norm and layout."""
from . import formula as F_, lemmas


def check(ctx, rep):
    lemmas.rotate_vectors(ctx, rep, deep=True)
    f = "utils.rotate_vectors"
    for qa, va, kw in (((3, 4), (3, 3), {}), ((4, 4), (4, 3), {}),
                       ((3, 4), (3, 3), {"axis": 0}),
                       ((4, 4), (3, 4), {"axis": 0, "qaxis": 0}),
                       ((2, 3, 4), (2, 3, 3), {}),
                       ((3, 2, 4), (3, 3, 2), {"axis": 1}),
                       ((1, 3, 4), (3, 3, 3), {}), ((3, "q!"), (3, 3), {}),
                       ((4, 3, "t"), (3, 3, "t"), {"axis": 0, "qaxis": 0}),
                       ((3, 1, 4), (3, 2, 3), {}), ((1, "q!"), (1, 3), {}),
                       ((3, 1, 4), (1, 2, 3), {})):
        def want(E, arrs, kw=kw):
            ax = kw.get("axis", -1)
            return F_.mapped([(arrs["q"], kw.get("qaxis", -1)),
                              (arrs["v"], ax)],
                             lambda q, v: E.rot(q, v), 3, ax)
        F_.case(ctx, rep, f, {"q": qa, "v": va}, kw, want, "rotate_vectors")
    for shp, kw in (
            ({"q": ("t", 4), "v": ("n", 3)}, {}),
            ({"q": ("t", 4), "v": ("t", "n", 3)}, {}),
            ({"q": ("t", "n", 4), "v": ("t", 3)}, {}),
            ({"q": ("t", 4), "v": ("t", "t", 3)}, {}),
            ({"q": ("t", "t", 4), "v": ("t", 3)}, {}),
            ({"q": ("t", 4), "v": (3,)}, {}),
            ({"q": ("t", 4), "v": ("t", 2)}, {}),
            ({"q": ("t", 4), "v": ("t", 4)}, {}),
            ({"q": ("t", 4), "v": (3, "n")}, {"axis": 0}),
            ({"q": ("t", "n", 4), "v": ("t", "m", 3)}, {})):
        F_.rejects(ctx, rep, f, shp, kw, ("ValueError",),
                   name="rotate_vectors")
