"""C37: estimated velocities are time derivatives along the time axis."""
from ..ctx import FALSE, const, sym
from ..dom.algebra import Alg
from ..dom.arrays import Arr, Err, compare, idxs, sym_array
from ..dom.deriv import Stamps, TimeEval

RULE = "derivative"
GAPS = "gaps"
OUT = "outliers"
FILT = "filter"

LIN = "estimate_linear_velocity"
ANG = "estimate_angular_velocity"
UNITS = (None, "ns", "us", "ms", "s")


def check(ctx, rep):
    rep.rule(RULE, "each component of the returned array is the derivative "
                   "along the time axis, with respect to the stamps in "
                   "seconds, of the specified expression of the input")
    rep.rule(GAPS, "samples with missing values are left out of the "
                   "derivative of the others and are missing in the result")
    rep.rule(OUT, "values are interpolated over time from the samples whose "
                  "condition on the threshold holds, stamps and values "
                  "selected by the same condition along the time axis")
    rep.rule(FILT, "the zero-phase filter is applied along the time axis")
    shapes = (
        (("t", "c"), {}),
        (("t", "c"), {"axis": 1, "time_axis": 0}),
        (("t", "c"), {"axis": -1, "time_axis": -2}),
        (("c", "t"), {"axis": 0, "time_axis": 1}),
        (("c", "t"), {"axis": -2, "time_axis": -1}),
        (("t", "n", "c"), {}),
        (("t", "c", "n"), {"axis": 1, "time_axis": 0}),
        (("t", "c", "n"), {"axis": -2, "time_axis": -3}),
        (("n", "t", "c"), {"time_axis": 1}),
        (("n", "c", "t"), {"axis": 1, "time_axis": 2}),
        (("n", "c", "t"), {"axis": 1, "time_axis": -1}),
        (("c", "t", "n"), {"axis": 0, "time_axis": 1}),
        (("c", "n", "t"), {"axis": 0, "time_axis": 2}),
        (("n", "t", "m", "c"), {"time_axis": 1}),
        (("n", "c", "m", "t"), {"axis": 1, "time_axis": 3}))
    for f in (LIN, ANG):
        for mode in (None,) if f == LIN else (None, "quaternion",
                                              "rotation_vector"):
            for shape, kw in shapes:
                kw = dict(kw, **({"mode": mode} if mode else {}))
                for unit in UNITS if len(shape) == 2 else UNITS[:2]:
                    case(ctx, rep, f, shape, kw, unit)
    for shape, kw in shapes[:5] + shapes[6:7] + shapes[8:10]:
        case(ctx, rep, ANG, shape, kw, None, nans=True)
    for f in (LIN, ANG):
        for shape, kw in shapes[:5]:
            for unit in UNITS[:2]:
                case(ctx, rep, f, shape, dict(kw, outlier_thresh=True), unit)
                case(ctx, rep, f, shape, dict(kw, cutoff=True), unit)
        for shape, kw in shapes[5:]:
            case(ctx, rep, f, shape, dict(kw, cutoff=True), None)


def value(ctx, f, axes, kw, unit, nans):
    I = ctx.rot_interp()
    I.overrides["rigid_body_motion.utils.is_dataarray"] = \
        lambda I, a, k: FALSE
    alg = Alg()
    x = sym_array(alg, "x", axes)
    arr = sym("arr", kind="ndarray", nonnull=True)
    ts = sym("ts", kind="ndarray", nonnull=True)
    E = TimeEval(alg)
    E.nans = nans
    E.env[arr.k] = x
    t = Arr(("t",), {(): E.tau()})
    E.env[ts.k] = t if unit is None else Stamps(("t",), unit)
    kws = {}
    for k, v in kw.items():
        if v is True:
            s = sym("opt_" + k, nonnull=True, kind="float")
            E.env[s.k] = Arr((), {(): alg.var(k)})
            kws[k] = s
        else:
            kws[k] = const(v)
    r = ctx.run(I, ctx.public(I, f), [arr], dict(kws, timestamps=ts))
    if r is None:
        return [Err("every path raises")], x, t, E, None
    return E.variants(r), x, t, E, r.loc


def swap_last(E, a, i):
    return E.swap(a, i, a.ndim - 1, None)


def wanted(E, f, x, t, kw, valid=None):
    """Derivative to be returned, and the array whose samples are judged."""
    ia = kw.get("axis", -1) % x.ndim
    it = kw.get("time_axis", 0) % x.ndim
    if f == LIN:
        return E.gradient(x, t, it, None)
    r = swap_last(E, x, ia)
    itr = ia if it == x.ndim - 1 else it
    al = E.alg
    if kw.get("mode", "quaternion") == "quaternion":
        sel = r
        if valid is not None:
            m = E.as_mask(valid, None)
            sel = E.index(r, (slice_(),) * itr + (m,))
            t = E.index(t, (m,))
        q = E.to_quat(sel)
        dq = E.to_quat(E.gradient(sel, t, itr, None))
        two = Arr((), {(): al.num(2)})
        w = E.arith("*", E.arith("*", two, E.elementwise(
            E.qconj, q, quat=True), None), dq, None)
        w = E.to_float(w)
        w = E.select(w, w.ndim - 1, [1, 2, 3])
        if valid is not None:
            nan = al.var("nan")
            axes = r.axes[:-1] + (3,)
            w = Arr(axes, {k: al.fn("where", m.cell, w.cells[k], nan)
                           for k in idxs(axes)})
    else:
        q = E.to_quat(r)
        v = Arr(q.axes + (3,), {k + (i,): al.fn(f"rotvec{i}", *c)
                                for k, c in q.cells.items()
                                for i in range(3)})
        w = E.gradient(v, t, itr, None)
    return swap_last(E, w, ia)


def slice_():
    from ..dom.arrays import Slice
    return Slice(None, None, None)


def case(ctx, rep, f, shape, kw, unit, nans=False):
    n = 3 if f == LIN else 4
    axes = tuple(n if a == "c" else a for a in shape)
    con = f"{f}({list(shape)}, " + ", ".join(
        f"{k}={v}" for k, v in kw.items()) + ")"
    con = con.replace("'", "") + (f" stamps in {unit}" if unit else "") + (
        " with gaps" if nans else "")
    rule = GAPS if nans else OUT if "outlier_thresh" in kw else FILT if \
        "cutoff" in kw else RULE

    def go():
        gots, x, t, E, loc = value(ctx, f, axes, kw, unit, nans)
        valid = None
        if nans:
            it = kw.get("time_axis", 0) % x.ndim
            c = Arr(x.axes, {k: E.alg.fn("isnan", v)
                             for k, v in x.cells.items()})
            for i in range(x.ndim - 1, -1, -1):
                if i == it:
                    continue
                lab = c.axes[i]
                if isinstance(lab, str):
                    c = Arr(c.axes[:i] + c.axes[i + 1:], {
                        k: E._any(lab, v) for k, v in c.cells.items()})
                else:
                    c = E.reduce_axis(c, i, E._or)
            valid = E.negate(c)
        want = wanted(E, f, x, t, kw, valid)
        if rule == OUT:
            for got in gots:
                outliers(rep, con, got, want, t, E, loc)
            return
        if rule == FILT:
            want = Arr(want.axes, {
                k: E.alg.fn("filtfilt:t", v) for k, v in want.cells.items()})
        for got in gots:
            st, txt = compare(E.alg, got, want)
            rep.check(st, rule, con, txt, getattr(got, "loc", None) or loc)
        rep.count("components_compared", len(want.cells))
    ctx.guarded(rule, con, go)


def outliers(rep, con, got, want, t, E, loc):
    if isinstance(got, Err):
        rep.bad(OUT, con, got.msg, got.loc)
        return
    if not isinstance(got, Arr) or got.cells is None:
        rep.unknown(OUT, con, repr(got)[:200], loc)
        return
    if got.axes != want.axes:
        rep.bad(OUT, con, f"result has axes {list(got.axes)}", loc)
        return
    for k, c in got.cells.items():
        s = E.alg.single(c)
        if s is None or not s[0].startswith("fn:interp:"):
            rep.check(None if s else False, OUT, con, f"component {k} is "
                      f"{str(c)[:120]}", loc)
            return
        lab = s[0][len("fn:interp:"):]
        y, ti, to = s[1]
        base = E.alg.compare(y, want.cells[k])
        ts_ok = all(E.seconds_of(v) == 1 for v in (ti, to)) or all(
            E.seconds_of(v) == E.seconds_of(ti) for v in (ti, to))
        cond = condition(E, lab)
        if base is False or not ts_ok:
            rep.bad(OUT, con, f"component {k} interpolates {str(y)[:80]}",
                    loc)
            return
        rep.check(None if base is None else cond, OUT, f"{con} {k}",
                  f"samples kept: {lab[:160]}", loc)


def condition(E, lab):
    """Samples are kept when a quantity of the data is below the
    threshold."""
    for k, p in E.alg.vars:
        if k in ("fn:le", "fn:lt") and lab == f"t[{E.alg.fn(k[3:], *p)!r}]":
            lhs = E.alg.support(p[0])
            names = {E.alg.vars[v] for v in lhs}
            has_thr = any(q == ("var", "outlier_thresh") for q in names)
            data = any(q[0] == "fn:diff:t-1" for q in names)
            r = p[1]
            if r.d and E.alg.single(r) == ("var", "outlier_thresh") and \
                    data and not has_thr:
                # the change at the sample itself counts
                pads = {q[0][6:] for q in names
                        if q[0].startswith("fn:pad")}
                return "1,1" in pads if pads else None
            if E.alg.single(p[0]) == ("var", "outlier_thresh"):
                return False
    return None
