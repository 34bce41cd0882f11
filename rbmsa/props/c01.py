"""C01: looked-up transforms compose along the frame path."""
from ..ctx import (F, FALSE, NONE, TRUE, U, const, judge, sym, tuple_items)
from . import lemmas

RULE = "frame-type"


def check(ctx, rep):
    rep.rule(RULE, "the reference-frame type inferred for each returned value "
                   "equals the specified one: translation = position of the "
                   "base frame relative to the target along the target's "
                   "axes, rotation maps base axes to target axes; the type "
                   "of a loop over the frame path is an inductive invariant "
                   "in the path cursor")
    ctx.guarded(RULE, "ReferenceFrame.lookup_transform",
                lambda: method(ctx, rep))
    for fn, names in (("lookup_transform", ("outof", "into")),
                      ("lookup_pose", ("frame", "reference"))):
        for form in ("tuple", "timestamps", "dataset"):
            ctx.guarded(RULE, f"{fn}[{form}]",
                        lambda: top(ctx, rep, fn, names, form))
    ctx.guarded(RULE, "get_transformation", lambda: deprecated(ctx, rep))
    lemmas.rotate_vectors(ctx, rep)
    lemmas.resolve_frame(ctx, rep)


SPEC = (F.disp("to", "self", "to"), F.Rot("self", "to"))


def method(ctx, rep, name="lookup_transform"):
    I = ctx.rot_interp()
    s, t = ctx.frame("self"), ctx.frame("to")
    r = ctx.run(I, I.getattr(s, name), [t])
    its = tuple_items(r, 3)
    if its is None:
        rep.unknown(RULE, name, "result is not a triple")
        return
    T = F.FrameTyper({s.k: "self", t.k: "to"})
    for i, (x, w) in enumerate(zip(its, SPEC)):
        for t, u in T.cases(x, w):
            judge(rep, RULE, f"ReferenceFrame.{name}:"
                  f"{('translation', 'rotation')[i]}", t, u, x.loc)
    rep.count("values_typed", T.n_typed)


def deprecated(ctx, rep):
    method(ctx, rep, "get_transformation")


def top(ctx, rep, fn, names, form):
    I = ctx.rot_interp()
    s, t = ctx.frame("self"), ctx.frame("to")
    kw = {names[0]: s, names[1]: t, "as_dataset": FALSE,
          "return_timestamps": FALSE}
    if form == "timestamps":
        kw["return_timestamps"] = TRUE
    if form == "dataset":
        kw["as_dataset"] = TRUE
    r = ctx.run(I, ctx.public(I, fn), [], kw)
    T = F.FrameTyper({s.k: "self", t.k: "to"})
    if form == "dataset":
        lin, ang = (("position", "orientation") if fn == "lookup_pose" else
                    ("translation", "rotation"))
        vals = [lemmas.dataset_var(r, lin), lemmas.dataset_var(r, ang)]
    else:
        vals = tuple_items(r, 3 if form == "timestamps" else 2)
    if vals is None or any(v is None for v in vals[:2]):
        rep.unknown(RULE, f"{fn}[{form}]", "result not recognised")
        return
    for i, w in enumerate(SPEC):
        for t, u in T.cases(vals[i], w):
            judge(rep, RULE,
                  f"{fn}[{form}]:{('translation', 'rotation')[i]}",
                  t, u, vals[i].loc)
    rep.count("values_typed", T.n_typed)
