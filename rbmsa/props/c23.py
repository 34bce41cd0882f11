"""C23: best-fit rotations are proper and least-squares optimal (Kabsch)."""
from ..ctx import FALSE, const, sym
from ..dom.algebra import Alg
from ..dom.arrays import Arr, Err, compare, sym_array
from ..dom.kabsch import MatEval, reference

ROT, TRA = "rotation", "translation"
SIGNS = ((1, 1), (-1, -1), (1, -1), (-1, 1))


def check(ctx, rep):
    rep.rule(ROT, "for every sign of the determinants of the singular "
                  "vectors of the cross covariance of the two (for "
                  "transforms: centred) arrays, the matrix turned into the "
                  "quaternion is V diag(1, 1, det V det U) U^T, cell by cell")
    rep.rule(TRA, "the translation is mean(v2) - R mean(v1)")
    shapes = ((("t", 3), {}), ((3, "t"), {"axis": 0}),
              (("t", "n", 3), {}), (("t", 3, "n"), {"axis": 1}),
              ((3, "t", "n"), {"axis": -3}))
    for f in ("best_fit_rotation", "best_fit_transform"):
        for axes, kw in shapes:
            for s in SIGNS:
                for flat in (False, True):
                    case(ctx, rep, f, axes, kw, s, flat)


def labels(E, axes, kw):
    """Axes after the spatial axis was brought to the end, flattened."""
    a = list(axes)
    i = kw.get("axis", -1) % len(a)
    a[i], a[-1] = a[-1], a[i]
    return "*".join(x for x in a[:-1])


def case(ctx, rep, f, axes, kw, signs, planar):
    con = (f"{f}({list(axes)}" + "".join(f", {k}={v}"
                                         for k, v in kw.items()) +
           f") det U={signs[0]} det V={signs[1]}").replace(
               "'", "") + (" points in a plane" if planar else "")

    def go():
        I = ctx.rot_interp()
        I.overrides["rigid_body_motion.utils.is_dataarray"] = \
            lambda I, a, k: FALSE
        E = MatEval(Alg())
        E.signs, E.planar = signs, planar
        s1 = sym("v1", kind="ndarray", nonnull=True)
        s2 = sym("v2", kind="ndarray", nonnull=True)
        x1 = sym_array(E.alg, "a", axes)
        x2 = sym_array(E.alg, "b", axes)
        E.env[s1.k], E.env[s2.k] = x1, x2
        lab = labels(E, axes, kw)

        def flat(x):
            i = kw.get("axis", -1) % len(axes)
            return Arr((lab, 3), dict(x.cells))
        H, m1, m2 = reference(E, flat(x1), flat(x2), "transform" in f)
        E.ref = H
        P = E.product((1, 1, signs[0] * signs[1]))
        q = E.quat_of(Arr((3, 3), P))
        wr = E.to_float(q)
        wt = Arr((3,), {(i,): m2[i] - sum(
            (P[(i, j)] * m1[j] for j in range(3)), E.alg.num(0))
            for i in range(3)})
        r = ctx.run(I, ctx.public(I, f), [s1, s2],
                    {k: const(v) for k, v in kw.items()})
        if r is None:
            rep.bad(ROT, con, "every path raises")
            return
        if "transform" in f:
            t = I.cur(I.getitem(r, const(0)))
            for v in E.variants(t):
                judge(rep, TRA, con, E, v, wt, t.loc)
            r = I.cur(I.getitem(r, const(1)))
        for v in E.variants(r):
            judge(rep, ROT, con, E, v, wr, r.loc)
    ctx.guarded(ROT, con, go)


def judge(rep, rule, con, E, got, want, loc):
    st, txt = compare(E.alg, got, want)
    if st is None and isinstance(got, Arr) and got.cells and \
            rule == ROT:
        # the quaternion of another matrix made of the same factors
        q = [E.alg.single(c) for c in got.cells.values()]
        if all(x and x[0].startswith("fn:quat") for x in q) and \
                len({x[0] for x in q}) == 4 and all(
                    x[0] == f"fn:quat{k[0]}"
                    for k, x in zip(got.cells, q)):
            w = E.alg.single(want.cells[(0,)])[1]
            res = [E.alg.compare(a, b) for a, b in zip(q[0][1], w)]
            if False in res:
                i = res.index(False)
                st, txt = False, (f"the matrix has cell {i // 3, i % 3} "
                                  f"{str(q[0][1][i])[:120]}, specified "
                                  f"{str(w[i])[:120]}")
    rep.check(st, rule, con, txt, getattr(got, "loc", None) or loc)
