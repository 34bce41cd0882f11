"""C04: looked-up velocities: measured between and expressed in the right
frames; static transforms."""
from ..ctx import (F, FALSE, N, NONE, TRUE, PKG, const, is_none, judge, sym,
                   show, tuple_items)
from . import lemmas, typed
from .lemmas import dataset_var

RULE = typed.RULE
STATIC = "static-transform"
MOVING = "moving-transform"


def want(kind, ref, rep):
    return F.linvel("self", ref, rep) if kind == "linear" else \
        F.angvel("self", ref, rep)


CASES = {
    "lookup_twist": ("linear", "angular"),
    "lookup_linear_velocity": ("linear",),
    "lookup_angular_velocity": ("angular",),
}


def check(ctx, rep):
    rep.rule(RULE, typed.TEXT)
    for name, parts in CASES.items():
        for level in ("method", "top"):
            for ref in ("ref", None):
                for rp in ("rep", None):
                    for rts in ((True,) if level == "method" else
                                (False, True)):
                        one(ctx, rep, name, parts, level, ref, rp, rts)
        one(ctx, rep, name, parts, "top", "ref", "rep", "dataset")
        one(ctx, rep, name, parts, "top", "ref", None, "dataset")
        moving(ctx, rep, name, parts)
        for allow in (True, False):
            static(ctx, rep, name, parts, allow)
    lemmas.rotate_vectors(ctx, rep)
    lemmas.resolve_frame(ctx, rep)


def one(ctx, rep, name, parts, level, ref, rp, rts):
    con = (f"{'ReferenceFrame.' if level == 'method' else ''}{name}"
           f"[reference={'given' if ref else 'default'}, represent_in="
           f"{'given' if rp else 'default'}"
           f"{', dataset' if rts == 'dataset' else ', timestamps' if rts else ''}]")

    def go():
        I = ctx.rot_interp()
        s = ctx.frame("self")
        par = I.getattr(s, "parent")
        r, p = ctx.frame("ref"), ctx.frame("rep")
        env = {s.k: "self", r.k: "ref", p.k: "rep", par.k: "par"}
        kw = {}
        if ref:
            kw["reference"] = r
        if rp:
            kw["represent_in"] = p
        if rts == "dataset":
            kw["as_dataset" if "twist" in name else "as_dataarray"] = TRUE
        elif rts:
            kw["return_timestamps"] = TRUE
        # the parent default applies to frames that have a parent
        I._fact(I.isnone(par), False)
        if level == "method":
            x = ctx.run(I, I.getattr(s, name), [], kw)
        else:
            x = ctx.run(I, ctx.public(I, name), [s], kw)
        to = ref or "par"
        if rp:
            ax = "rep"
        elif level == "top":
            ax = to
        else:
            ax = "par"
        if rts == "dataset":
            its = [dataset_var(x, k + "_velocity") for k in parts] \
                if "twist" in name else [x.args[0]] \
                if x is not None and x.op == "xarray.DataArray" else [x]
        else:
            n = len(parts) + bool(rts)
            its = [x] if n == 1 else tuple_items(x, n)
        if its is None or any(i is None for i in its):
            rep.unknown(RULE, con, "result not recognised")
            return
        T = F.FrameTyper(env)
        for part, v in zip(parts, its):
            for t, w in T.cases(v, want(part, to, ax)):
                judge(rep, RULE, f"{con}:{part}", t, w, v.loc)
        rep.count("values_typed", T.n_typed)
    ctx.guarded(RULE, con, go)


def static(ctx, rep, name, parts, allow):
    con = f"ReferenceFrame.{name}[static, allow_static={allow}]"
    rep.rule(STATIC, "when the underlying transform carries no timestamps, "
                     "every path of the velocity lookup raises ValueError, "
                     "or, with allow_static, returns zero vectors and no "
                     "timestamps")

    def go():
        I = ctx.rot_interp()
        s, r, p = ctx.frame("self"), ctx.frame("ref"), ctx.frame("rep")
        used = []

        def lt(I, a, k):
            used.append(1)
            return I.mk("tuple", (sym("t", kind="ndarray", nonnull=True),
                                  sym("r", kind="ndarray", nonnull=True),
                                  NONE))
        I.overrides[ctx.C.qualname + ".lookup_transform"] = lt
        x = ctx.run(I, I.getattr(s, name), [],
                    {"reference": r, "represent_in": p,
                     "allow_static": TRUE if allow else FALSE,
                     "return_timestamps": TRUE})
        if not used:
            rep.unknown(STATIC, con, "does not use lookup_transform")
            return
        if not allow:
            exc = {e.how for e in I.raises}
            if x is not None:
                rep.bad(STATIC, con, f"returns {show(x, 4)} instead of "
                        f"raising ValueError", x.loc)
            else:
                rep.check(exc == {"ValueError"}, STATIC, con,
                          f"raises {sorted(exc)}",
                          I.raises[-1].loc if I.raises else None)
            return
        its = tuple_items(x, len(parts) + 1) if x is not None else None
        if x is None:
            rep.bad(STATIC, con, "every path raises: "
                    + ", ".join(f"{e.how} at {e.loc}" for e in I.raises))
            return
        if its is None:
            rep.unknown(STATIC, con, f"result not recognised: {show(x, 4)}")
            return
        for part, v in zip(parts, its):
            z = zero3(v)
            rep.check(z, STATIC, f"{con}:{part}", show(v, 4), v.loc)
        rep.check(is_none(its[-1]) or (None if its[-1].op not in (
            "const", "in") else False), STATIC, f"{con}:timestamps",
            show(its[-1], 4), its[-1].loc)
    ctx.guarded(STATIC, con, go)


def moving(ctx, rep, name, parts):
    con = f"ReferenceFrame.{name}[with timestamps]"
    rep.rule(MOVING, "when the underlying transform carries timestamps, the "
                     "lookup itself rejects nothing, whatever the values, "
                     "and returns timestamps")

    def go():
        I = ctx.rot_interp()
        s, r, p = ctx.frame("self"), ctx.frame("ref"), ctx.frame("rep")
        used = []
        fi = I.class_member(ctx.C, name)

        def lt(I, a, k):
            used.append(1)
            return I.mk("tuple", [sym(x, kind="ndarray", nonnull=True)
                                  for x in ("t", "r", "ts")])

        def tv(I, a, k):
            v = a[1] if len(a) > 1 else k["arr"]
            t = k.get("timestamps", a[5] if len(a) > 5 else None)
            return I.mk("tuple", (N("m:transform_vectors", (v,)), t)) \
                if t is not None else NotImplemented
        I.overrides[ctx.C.qualname + ".lookup_transform"] = lt
        I.overrides[ctx.C.qualname + ".transform_vectors"] = tv
        x = ctx.run(I, I.getattr(s, name), [],
                    {"reference": r, "represent_in": p,
                     "return_timestamps": TRUE})
        if not used or x is None:
            rep.check(False if used else None, MOVING, con,
                      "every path raises")
            return
        own = [e for e in I.raises
               if e.stack and e.stack[-1][0].endswith("." + name)]
        rep.check(not own, MOVING, con + ": accepted",
                  f"raises {own[0].how} when " + ", ".join(
                      ("" if v else "not ") + show(q, 4)
                      for q, v in own[0].pc[-2:]) if own else "",
                  own[0].loc if own else None)
        its = tuple_items(x, len(parts) + 1)
        if its is None:
            rep.unknown(MOVING, con, f"result not recognised: {show(x, 4)}")
            return
        ts = its[-1]
        none = is_none(ts) or ts.op == "phi" and any(
            is_none(a) for a in ts.args[1:])
        rep.check(not none, MOVING, con + ": timestamps", show(ts, 4), ts.loc)
    ctx.guarded(MOVING, con, go)


def zero3(v):
    from ..dom.arrays import Arr, ArrayEval
    a = ArrayEval(None, {}).ev(v)
    if isinstance(a, Arr) and a.cells is not None:
        if a.axes != (3,):
            return False
        return all(c.const() == 0 for c in a.cells.values())
    return None
