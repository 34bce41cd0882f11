"""C07: everything in a result is sampled on the reported time line."""
import itertools

from ..ctx import N, TRUE, const, cval, is_const, is_none
from ..dom.timeline import is_opaque, mentions_equality
from .matching import Resampling, World, describe, same_line

RULE = "common-line"
REJECT = "needs-stamps"
STAR = {"W": None, "A": "W", "B": "W", "C": "W"}
CHAIN = {"W": None, "A": "W", "B": "A", "C": "W"}
LONG = {"W": None, "A": "W", "D": "A", "B": "D", "E": "W", "C": "E"}
LONGS = ("ddddd", "cdddd", "dddcd", "ccccc", "dccdc", "csdsc", "scdcs",
         "sdsds")


def check(ctx, rep):
    rep.rule(RULE, "every moving element that reaches the result passes "
                   "through a resampling operation that pairs its data with "
                   "its own stamps and evaluates at the reported stamps")
    for ks in itertools.product("scd", repeat=3):
        k = dict(zip("BAC", ks), W="s")
        t = "".join(ks)
        for how in ("method", "function"):
            ctx.guarded(RULE, f"lookup_transform {how} {t}",
                        lambda k=k, how=how, t=t: look(ctx, rep, k, how, t))
    for ks in LONGS:
        k = dict(zip("BDAEC", ks), W="s")
        ctx.guarded(RULE, f"lookup_transform {ks}",
                    lambda k=k, ks=ks: look(ctx, rep, k, "method", ks, LONG))
        for stamps in (True, False):
            ctx.guarded(RULE, f"transform_points {ks} {stamps}",
                        lambda k=k, ks=ks, stamps=stamps: trans(
                            ctx, rep, "transform_points", k, stamps, ks,
                            LONG))
    for m in ("transform_points", "transform_vectors",
              "transform_quaternions"):
        for ks in itertools.product("scd", repeat=2):
            for stamps in (True, False):
                k = dict(zip("BC", ks), A="s", W="s")
                ctx.guarded(RULE, f"{m} {ks} {stamps}",
                            lambda m=m, k=k, ks=ks, stamps=stamps: trans(
                                ctx, rep, m, k, stamps, "".join(ks)))
    vel(ctx, rep)


def four(c):
    """Truth of a condition when the last axis has length four."""
    if c.op == "const":
        return bool(cval(c))
    if c.op in ("not", "truth"):
        t = four(c.args[0])
        return t if t is None or c.op == "truth" else not t
    if c.op == "phi":
        g, a, b = map(four, c.args)
        return b if g is False else a if g is True else a if a == b else None
    if c.op == "cmp" and c.meta in ("==", "!="):
        for x, y in (c.args, c.args[::-1]):
            if y.op == "const" and isinstance(cval(y), int) and \
                    x.op == "item" and x.args[0].op == "attr" and \
                    x.args[0].meta == "shape" and is_const(x.args[1], -1):
                return (cval(y) == 4) == (c.meta == "==")
    return None


def verify(rep, w, value, ts, con, quats=None):
    """Obligations for one (value, stamps) pair."""
    T = w.times()

    def level(n, ts, depth):
        R = Resampling(w.data, T)
        R.walk(n)
        for u in R.uses:
            c = f"{con}: {u.name or 'derived'}.{u.attr or 'data'} ({u.how})"
            if depth:
                c += " inner"
            moving = w.kinds.get(u.name, "s") != "s" if u.name else True
            if u.how in ("raw", "static"):
                if moving and not is_opaque(u.cond) and \
                        not mentions_equality(u.cond):
                    rep.bad(RULE, c, "moving data enters without resampling",
                            u.node.loc)
                elif moving:
                    rep.unknown(RULE, c, "moving data enters without "
                                "resampling on some paths", u.node.loc)
                else:
                    rep.ok(RULE, c, "static")
                continue
            if u.detail and u.how != "hold":
                rep.bad(RULE, c, u.detail, u.node.loc)
                continue
            if u.how == "clamped":
                rep.bad(RULE, c, "values outside the range are clamped",
                        u.node.loc)
                continue
            quat = u.attr == "rotation" or u.name == quats
            if u.how == "linear" and u.name and quat:
                if any(four(c0) not in (None, pol) for c0, pol in u.cond
                       if isinstance(c0, N)):
                    continue
                soft = is_opaque(u.cond) or mentions_equality(u.cond)
                rep.check(None if soft else False, RULE, c,
                          "rotations interpolated linearly" + (
                              " on some paths" if soft else ""), u.node.loc)
                continue
            if u.name:
                want = ("T", u.name)
                if u.times is None:
                    rep.unknown(RULE, c, "stamps of the data not understood",
                                u.node.loc)
                    continue
                if u.times != want:
                    rep.bad(RULE, c, f"data of {u.name} paired with "
                            f"{describe(u.times)}", u.node.loc)
                    continue
            same = None if ts is None else same_line(T, u.out, ts)
            if ts is not None and is_none(ts):
                same = False
            rep.check(same, RULE, c, "evaluated at the common stamps" if same
                      else f"evaluated at {describe(T.try_ev(u.out))}, "
                      f"common stamps are {describe(T.try_ev(ts))}"
                      if ts is not None else "", u.node.loc)
            if not u.name and depth < 4:
                level(u.inner, u.times_node, depth + 1)
        return R
    return level(value, ts, 0)


def look(ctx, rep, k, how, txt, tree=CHAIN):
    w = World(ctx, tree, k)
    I = w.I
    if how == "method":
        r = w.method("B", "lookup_transform", [w.f["C"]])
    else:
        r = w.call(ctx.public(I, "lookup_transform"), [w.f["B"], w.f["C"]],
                   {"return_timestamps": TRUE})
    con = f"lookup_transform {how} path {txt}"
    if r is None:
        rep.bad(RULE, con, "rejected")
        return
    ts = I.cur(I.getitem(r, const(2)))
    for i, nm in ((0, "translation"), (1, "rotation")):
        verify(rep, w, I.cur(I.getitem(r, const(i))), ts, f"{con} {nm}")


def trans(ctx, rep, m, k, stamps, txt, tree=CHAIN):
    w = World(ctx, tree, k)
    arr, t = w.array("arr", stamps)
    kw = {"return_timestamps": TRUE}
    if stamps:
        kw["timestamps"] = t
    r = w.method("B", m, [arr, w.f["C"]], kw)
    con = f"{m} path {txt}, {'stamped' if stamps else 'static'} array"
    if r is None:
        rep.bad(RULE, con, "rejected")
        return
    I = w.I
    verify(rep, w, I.cur(I.getitem(r, const(0))),
           I.cur(I.getitem(r, const(1))), con,
           "arr" if "quat" in m else None)


def vel(ctx, rep):
    def run(con, fn):
        def go():
            w = World(ctx, STAR, fn.kinds)
            r = fn(w)
            if r is None:
                rep.bad(RULE, con, "rejected")
                return
            vals, ts = r
            for nm, v in vals:
                verify(rep, w, v, ts, f"{con} {nm}")
        ctx.guarded(RULE, con, go)

    def get(w, r, i):
        return w.I.cur(w.I.getitem(r, const(i)))

    for ks in ("css", "ccs", "ccc", "ccd"):
        kinds = dict(zip("ABC", ks), W="s")
        for api in ("method", "function"):
            for q, n in (("lookup_twist", 2), ("lookup_linear_velocity", 1),
                         ("lookup_angular_velocity", 1)):
                def fn(w, q=q, n=n, api=api):
                    kw = {"represent_in": w.f["C"], "return_timestamps": TRUE}
                    if api == "method":
                        r = w.method("A", q, [w.f["B"]], kw)
                    else:
                        kw["reference"] = w.f["B"]
                        r = w.call(ctx.public(w.I, q), [w.f["A"]], kw)
                    if r is None:
                        return None
                    return [(f"[{i}]", get(w, r, i)) for i in range(n)], \
                        get(w, r, n)
                fn.kinds = kinds
                run(f"{q} {api} {ks}", fn)
        for stamps in (True, False):
            for what in ("reference_frame", "moving_frame",
                         "representation_frame"):
                for q in ("transform_angular_velocity",
                          "transform_linear_velocity"):
                    def fn(w, q=q, what=what, stamps=stamps):
                        arr, t = w.array("arr", stamps)
                        kw = {"what": const(what),
                              "return_timestamps": TRUE}
                        if stamps:
                            kw["timestamps"] = t
                        if "linear" in q:
                            if what == "reference_frame":
                                kw["moving_frame"] = w.f["C"]
                            elif what == "moving_frame":
                                kw["reference_frame"] = w.f["C"]
                        r = w.method("A", q, [arr, w.f["B"]], kw)
                        if r is None:
                            return None
                        return [("", get(w, r, 0))], get(w, r, 1)
                    fn.kinds = kinds
                    run(f"{q}({what}) {ks} "
                        f"{'stamped' if stamps else 'static'}", fn)
