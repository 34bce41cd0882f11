"""C05: inverse=True stores the inverted transform in every constructor."""
from ..ctx import (F, FALSE, NONE, TRUE, const, judge, sym)
from . import lemmas, typed

RULE = typed.RULE


def kinds(inverse):
    """(translation, rotation) types of the arguments and of the frame."""
    out = F.disp("par", "self", "par"), F.Rot("self", "par")
    if inverse:
        return (F.disp("self", "par", "self"), F.Rot("par", "self")), out
    return out, out


def check(ctx, rep):
    rep.rule(RULE, typed.TEXT)
    for inv in (True, False):
        for ts in (False, True):
            for disc in (False, True)[:1 + ts]:
                one(ctx, rep, "ReferenceFrame", inv, ts, disc)
                one(ctx, rep, "register_frame", inv, ts, disc)
        for disc in (False, True):
            one(ctx, rep, "from_dataset", inv, True, disc)
            one(ctx, rep, "from_translation_dataarray", inv, True, disc)
            one(ctx, rep, "from_rotation_dataarray", inv, True, disc)
        one(ctx, rep, "from_rotation_matrix", inv, False)
    lemmas.rotate_vectors(ctx, rep)
    lemmas.qinv(ctx, rep)
    lemmas.resolve_frame(ctx, rep)


def one(ctx, rep, how, inv, ts, disc=False):
    con = f"{how}[inverse={inv}{', timestamps' if ts else ''}" \
        f"{', discrete' if disc else ''}]"
    more = {"discrete": TRUE} if disc else {}

    def go():
        I = ctx.rot_interp()
        cls = ctx.at(I, "reference_frames", "ReferenceFrame")
        par = ctx.frame("par")
        t = sym("t", kind="ndarray", nonnull=True)
        r = sym("r", kind="ndarray", nonnull=True)
        (tin, rin), (tout, rout) = kinds(inv)
        tys = {t.k: tin, r.k: rin}
        iv = TRUE if inv else FALSE
        name = const("child")
        has = {"translation", "rotation"}
        if how in ("ReferenceFrame", "register_frame"):
            kw = {"parent": par, "translation": t, "rotation": r,
                  "inverse": iv, **more}
            if ts:
                kw["timestamps"] = sym("ts", kind="ndarray", nonnull=True)
            if how == "ReferenceFrame":
                x = ctx.run(I, cls, [name], kw)
            else:
                reg = ctx.registry(I)
                kw["update"] = TRUE
                ctx.run(I, ctx.public(I, "register_frame"), [name], kw)
                x = None
                for e in I.effects:
                    if e.kind == "mutate" and e.node.uid == reg.uid and \
                            "item" in str(e.how):
                        x = e.args[-1]
        else:
            f = I.getattr(cls, how)
            if how == "from_dataset":
                ds = sym("ds", kind="Dataset", nonnull=True)
                t, r = (I.getattr(I.getitem(ds, const(k)), "data")
                        for k in ("tr", "ro"))
                tys = {t.k: tin, r.k: rin}
                x = ctx.run(I, f, [ds, const("tr"), const("ro"),
                                   const("tm"), par],
                            {"name": name, "inverse": iv, **more})
            elif how == "from_rotation_matrix":
                mat = sym("mat", kind="ndarray", nonnull=True)
                tys = {mat.k: F.Mat(rin.a, rin.b)}
                has = {"rotation"}
                x = ctx.run(I, f, [mat, par], {"name": name, "inverse": iv})
            else:
                da = sym("da", kind="DataArray", nonnull=True)
                d = I.getattr(da, "data")
                which = "translation" if "translation" in how else "rotation"
                has = {which} if which == "rotation" or not inv else set()
                tys = {d.k: tin if which == "translation" else rin}
                if which == "translation" and inv:
                    # no rotation given: both frames share their axes
                    tys = {d.k: F.disp("self", "par", "par")}
                    has = {"translation"}
                x = ctx.run(I, f, [da, const("tm"), par],
                            {"name": name, "inverse": iv, **more})
        if x is None:
            rep.unknown(RULE, con, "constructed frame not found")
            return
        T = F.FrameTyper({par.k: "par"}, tys)
        for attr, w in (("translation", tout), ("rotation", rout)):
            if attr in has:
                v = I.getattr(I.cur(x), attr)
                ctx.kept(I, v)
                for t, u in T.cases(v, w):
                    judge(rep, RULE, f"{con}:{attr}", t, u, v.loc)
        rep.count("values_typed", T.n_typed)
    ctx.guarded(RULE, con, go)
