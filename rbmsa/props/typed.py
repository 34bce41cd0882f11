"""Frame-type obligations of the array transforms."""
from ..ctx import (F, FALSE, NONE, TRUE, const, judge, sym, tuple_items)

RULE = "frame-type"
TEXT = ("the reference-frame type inferred for each returned value (axes it "
        "is expressed along, frames it is measured between) equals the "
        "specified type; loops over the frame path are typed by an inductive "
        "invariant in the path cursor")

IN = {
    "transform_points": (lambda: F.disp("self", "pt", "self"),
                         lambda: F.disp("to", "pt", "to")),
    "transform_vectors": (lambda: F.Vec("self", {("F", "arr"): 1}),
                          lambda: F.Vec("to", {("F", "arr"): 1})),
    "transform_quaternions": (lambda: F.Rot("body", "self"),
                              lambda: F.Rot("body", "to")),
}

ANG = {
    "reference_frame": (("x", "self", "self"), ("x", "to", "to")),
    "moving_frame": (("self", "x", "self"), ("to", "x", "to")),
}
LIN = {
    "reference_frame": (("mov", "self", "self"), ("mov", "to", "to")),
    "moving_frame": (("self", "ref", "self"), ("to", "ref", "to")),
}


def spec(method, what):
    """(type of the input, specified type of the output)."""
    if method in IN:
        a, b = IN[method]
        return a(), b()
    if what == "representation_frame":
        return IN["transform_vectors"][0](), IN["transform_vectors"][1]()
    tab, mk = ((ANG, F.angvel) if "angular" in method else (LIN, F.linvel))
    a, b = tab[what]
    return mk(*a), mk(*b)


def setup(ctx, method, what, dataarray=False):
    I = ctx.rot_interp()
    s, t = ctx.frame("self"), ctx.frame("to")
    m, r = ctx.frame("mov"), ctx.frame("ref")
    arr = sym("arr", kind="DataArray" if dataarray else "ndarray",
              nonnull=True)
    win, wout = spec(method, what)
    env = {s.k: "self", t.k: "to", m.k: "mov", r.k: "ref"}
    kw = {}
    if what:
        kw["what"] = const(what)
    if method == "transform_linear_velocity":
        kw.update(moving_frame=m, reference_frame=r)
    return I, s, t, arr, env, win, wout, kw


def method(ctx, rep, name, what=None, ts=False, axis=None):
    con = f"ReferenceFrame.{name}" + (f"[{what}]" if what else "") + \
        ("[timestamps]" if ts else "") + (f"[axis={axis}]" if axis is not None
                                          else "")

    def go():
        I, s, t, arr, env, win, wout, kw = setup(ctx, name, what)
        if ts:
            kw["timestamps"] = sym("ts", kind="ndarray", nonnull=True)
        kw["return_timestamps"] = TRUE
        r = ctx.run(I, I.getattr(s, name), [arr, t], kw)
        its = tuple_items(r, 2)
        if its is None:
            rep.unknown(RULE, con, "result not recognised")
            return
        T = F.FrameTyper(env, {arr.k: win})
        for t, w in T.cases(its[0], wout):
            judge(rep, RULE, con, t, w, its[0].loc)
        rep.count("values_typed", T.n_typed)
    rep.rule(RULE, TEXT)
    ctx.guarded(RULE, con, go)


def top(ctx, rep, name, what=None, ts=False, return_ts=False,
        dataarray=False):
    con = name + (f"[{what}]" if what else "") + \
        ("[timestamps]" if ts else "") + \
        ("[return_timestamps]" if return_ts else "") + \
        ("[DataArray]" if dataarray else "")

    def go():
        I, s, t, arr, env, win, wout, kw = setup(ctx, name, what, dataarray)
        kw.update(into=t, outof=s)
        if ts:
            kw["timestamps"] = sym("ts", kind="ndarray", nonnull=True)
        if return_ts:
            kw["return_timestamps"] = TRUE
        r = ctx.run(I, ctx.public(I, name), [arr], kw)
        if return_ts:
            its = tuple_items(r, 2)
            r = its and its[0]
        if r is None:
            rep.unknown(RULE, con, "result not recognised")
            return
        T = F.FrameTyper(env, {arr.k: win})
        for t, w in T.cases(r, wout):
            judge(rep, RULE, con, t, w, r.loc)
        rep.count("values_typed", T.n_typed)
    rep.rule(RULE, TEXT)
    ctx.guarded(RULE, con, go)
