"""C20: the axis layout of the input is restored, for every placement of the
spatial and the time axis."""
from ..ctx import NONE, TRUE, N, const, sym, tuple_items
from ..dom.algebra import Alg
from ..dom.arrays import (Arr, ArrayEval, Err, Top, compare, idxs, is_none)
from . import formula as F_, lemmas
from .formula import comps

RULE = "axis-layout"
TEXT = ("for a symbolic array whose component and time axes are at the given "
        "positions, the returned value has the same axes at the same "
        "positions (the time axis resampled to the common timeline) and each "
        "output component is the specified expression of the input "
        "components along the component axis")


class Eval(ArrayEval):
    """Array evaluation with resampling onto the common timeline `T`."""

    def o_op_resample(self, n):
        a = self.arr(n.args[0])
        if is_none(n.args[1]):
            if is_none(n.args[2]):
                return a
            if a.axes and a.axes[0] == "t":
                return Err("the input's time axis is ignored", n.loc)
            return Arr(("T",) + a.axes, a.cells) if a.ndim == 1 else \
                Top("static array with several axes", n.loc)
        ts = self.arr(n.args[1])
        if not a.axes or a.axes[0] != ts.axes[0]:
            return Err(f"resampled along the first of the axes "
                       f"{list(a.axes)}, which is not the time axis", n.loc)
        return Arr(("T",) + a.axes[1:], a.cells)


def setup(ctx, moving, arr_axes, ts):
    """Interpreter in which the timeline matching is opaque."""
    I = ctx.rot_interp()
    I.overrides.pop(next((q for q in I.overrides if
                          q.endswith(".rotate_vectors")), None), None)
    M = ctx.p.classes.get("rigid_body_motion.core.TransformMatcher")
    added = {}
    alg = Alg()
    lead = ("T",) if moving or ts else ()
    env = {}

    def s(name, axes):
        x = sym(name, kind="ndarray", nonnull=True)
        env[x.k] = F_.sym_array(alg, name, axes)
        return x
    T = sym("T", kind="ndarray", nonnull=True) if lead else NONE
    vals = dict(t=s("t", lead + (3,)), r=s("r", lead + (4,)), T=T)
    if M is not None:
        Q = M.qualname

        def arrays(I, a, k):
            # the arrays handed to this matcher, found in its state
            out = []
            for x in added.get(a[0].uid, []):
                out.append(I.mk("op:resample", (x[0], x[1], T)))
            return I.mk("tuple", tuple(out) + (T,))

        def add(I, a, k):
            arr = a[1] if len(a) > 1 else k["array"]
            t = a[2] if len(a) > 2 else k.get("timestamps", NONE)
            added.setdefault(a[0].uid, []).append((arr, t))
            return NONE
        I.overrides[Q + ".add_array"] = add
        I.overrides[Q + ".get_arrays"] = arrays
        I.overrides[Q + ".add_reference_frame"] = lambda I, a, k: NONE
        I.overrides[Q + ".get_transformation"] = lambda I, a, k: I.mk(
            "tuple", (vals["t"], vals["r"], T))
    R = ctx.C.qualname + "."

    def vel(*names):
        def f(I, a, k):
            return I.mk("tuple", tuple(vals[x] for x in names) + (
                k.get("_", T),))
        return f
    vals["lin"] = s("lin", lead + (3,))
    vals["ang"] = s("ang", lead + (3,))
    I.overrides[R + "lookup_angular_velocity"] = vel("ang")
    I.overrides[R + "lookup_linear_velocity"] = vel("lin")
    I.overrides[R + "lookup_twist"] = vel("lin", "ang")
    I.overrides[R + "lookup_transform"] = vel("t", "r")
    return I, alg, env, vals


def rot(E, r, v):
    return E.rot(comps(r, -1), v)


def value(name, what, E, env, vals, v):
    """Specified output components."""
    r, t = env[vals["r"].k], env[vals["t"].k]
    if name == "transform_quaternions":
        return list(E.qmul(tuple(comps(r, -1)), tuple(v)))
    w = rot(E, r, v)
    if name == "transform_points":
        return [a + b for a, b in zip(w, comps(t, -1))]
    if name == "transform_vectors" or what == "representation_frame":
        return w
    ang = comps(env[vals["ang"].k], -1)
    if name == "transform_angular_velocity":
        return [a + b for a, b in zip(w, ang)]
    return None       # layout only


def layouts(ctx, k):
    """(axes, axis, time_axis, timestamps)."""
    out = [((k,), -1, 0, False), (("n", k), -1, 0, False),
           ((k, "n"), 0, 0, False), (("n", k), 1, 0, False),
           (("n", k, "m"), 1, 0, False), ((k, "n", "m"), 0, 1, False),
           (("n", k, "m"), -2, 2, False), (("n", "m", k), 2, 0, False)]
    ts = [("t", k, -1, 0), ("t", k, 1, 0)]
    for ax in (0, -2):
        for tx in (1, -1):
            out.append(((k, "t"), ax, tx, True))
    for ax in (-1, 1):
        for tx in (0, -2):
            out.append((("t", k), ax, tx, True))
    for p in ((k, "t", "n"), (k, "n", "t"), ("t", k, "n"), ("t", "n", k),
              ("n", k, "t"), ("n", "t", k)):
        out.append((p, p.index(k), p.index("t"), True))
        out.append((p, p.index(k) - 3, p.index("t") - 3, True))
    for p in ((k, "t", "n", "m"), ("n", "m", k, "t"), ("n", "t", k, "m"),
              ("t", "n", k, "m"), ("n", k, "m", "t"), ("n", "m", "t", k)):
        out.append((p, p.index(k), p.index("t"), True))
        if ctx.deep:
            out.append((p, p.index(k) - 4, p.index("t") - 4, True))
    return out


METHODS = [("transform_points", None), ("transform_vectors", None),
           ("transform_quaternions", None),
           ("transform_angular_velocity", "reference_frame"),
           ("transform_angular_velocity", "moving_frame"),
           ("transform_angular_velocity", "representation_frame"),
           ("transform_linear_velocity", "reference_frame"),
           ("transform_linear_velocity", "moving_frame"),
           ("transform_linear_velocity", "representation_frame")]


def one(ctx, rep, name, what, lay, moving, top=False):
    axes, ax, tx, ts = lay
    if moving and not ts and len(axes) > 1:
        return
    con = (f"{name}" + (f"[{what}]" if what else "")
           + ("(function)" if top else "")
           + f" array{list(axes)} axis={ax}".replace("'", "")
           + (f" time_axis={tx}" if ts else "")
           + (" moving" if moving else " static"))

    def go():
        I, alg, env, vals = setup(ctx, moving, axes, ts)
        s_, to = ctx.frame("self"), ctx.frame("to")
        arr = sym("arr", kind="ndarray", nonnull=True)
        env[arr.k] = F_.sym_array(alg, "arr", axes)
        kw = {"axis": const(ax)}
        if ts:
            kw["timestamps"] = sym("ts", kind="ndarray", nonnull=True)
            env[kw["timestamps"].k] = Arr(("t",), {(): alg.var("ts")})
            kw["time_axis"] = const(tx)
        if what:
            kw["what"] = const(what)
        if name == "transform_linear_velocity":
            kw.update(moving_frame=ctx.frame("mov"),
                      reference_frame=ctx.frame("ref"))
        if top:
            r = ctx.run(I, ctx.public(I, name), [arr],
                        dict(kw, into=to, outof=s_))
        else:
            r = ctx.run(I, I.getattr(s_, name), [arr, to], kw)
        E = Eval(alg, env)
        if vals["T"].op != "const":
            env[vals["T"].k] = Arr(("T",), {(): alg.var("T")})
        ra = F_.taken(I, E)
        if ra is not None and ra is not F_.MAYBE:
            rep.bad(RULE, con, f"raises {ra.how}", ra.loc)
            return
        if r is None:
            rep.unknown(RULE, con, "every path raises")
            return
        w = value(name, what, E, env, vals, comps(env[arr.k], ax))
        lead = "T" if (moving or ts) else None
        oax = list(axes)
        if ts:
            oax[oax.index("t")] = "T"
        i = ax % len(axes)
        if moving and not ts:
            oax = ["T"] + oax
            i += 1
        W = Arr(tuple(oax)) if w is None else F_.build(tuple(oax), i, w)
        for v in E.variants(r):
            st, txt = compare(alg, v, W)
            rep.check(st, RULE, con, txt, getattr(v, "loc", None) or r.loc)
    ctx.guarded(RULE, con, go)


def check(ctx, rep):
    rep.rule(RULE, TEXT)
    lemmas.rotate_vectors(ctx, rep, deep=True)
    for name, what in METHODS:
        k = 4 if "quat" in name else 3
        for lay in layouts(ctx, k):
            one(ctx, rep, name, what, lay, False)
            one(ctx, rep, name, what, lay, True)
    for name in ("transform_points", "transform_vectors",
                 "transform_quaternions", "transform_angular_velocity",
                 "transform_linear_velocity"):
        k = 4 if "quat" in name else 3
        for lay in (((k, "n"), 0, 0, False), ((k, "t"), 0, 1, True),
                    (("n", "t", k), 2, 1, True),
                    ((k, "n", "t"), 0, 2, True), (("t", k), -1, 0, True)):
            one(ctx, rep, name, None, lay, False, top=True)
