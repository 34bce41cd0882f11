"""Obligations shared by several properties."""
from ..ctx import N, U, const, is_const, is_none, show, sym, walk
from . import formula as F_


def dataset_var(ds, name):
    """Data node of a variable of an xarray.Dataset construction."""
    n = ds
    if n is None:
        return None
    seen = 0
    while n.op in ("setattr", "update", "mutated") and seen < 50:
        n = n.args[0]
        seen += 1
    if n.op == "phi":
        a, b = dataset_var(n.args[1], name), dataset_var(n.args[2], name)
        if a is None or b is None:
            return None
        return a if a.k == b.k else N("phi", (n.args[0], a, b))
    if n.op == "xarray.Dataset":
        d = n.args[0]
        if d.op != "dict":
            return None
        for k, v in d.args:
            if is_const(k, name):
                if v.op in ("tuple", "list") and len(v.args) >= 2:
                    return v.args[1]
                return v
    return None

# --- rotation primitives

def rotate_vectors(ctx, rep, deep=None):
    """v' = v + 2(s r×v + r×(r×v))/|q|² for every layout."""
    deep = ctx.deep if deep is None else deep
    base = [((4,), (3,), {}), ((4,), ("t", 3), {}), (("t", 4), ("t", 3), {}),
            (("t", "q!"), ("t", 3), {}), (("t", "n", 4), ("t", "n", 3), {}),
            (("t", 1, 4), ("t", "n", 3), {})]
    if deep:
        base += [(("q!",), (3,), {}), (("q!",), ("t", 3), {}),
                 (("t", 4), (3, "t"), {"axis": 0}),
                 (("t", "n", 4), ("t", 3, "n"), {"axis": 1}),
                 (("t", "n", 4), (3, "t", "n"), {"axis": 0}),
                 (("t", "n", 4), (3, "t", "n"), {"axis": -3}),
                 ((4, "t"), (3, "t"), {"axis": 0, "qaxis": 0}),
                 ((4, "t", "n"), (3, "t", "n"), {"axis": 0, "qaxis": 0}),
                 (("t", 4, "n"), ("t", 3, "n"), {"axis": 1, "qaxis": 1}),
                 (("t", 4, "n"), ("t", "n", 3), {"qaxis": 1}),
                 (("t", "n", "m", 4), ("t", "n", "m", 3), {}),
                 (("t", "n", "m", 4), ("t", "n", 3, "m"), {"axis": 2}),
                 (("t", "n", "m", 4), ("t", 3, "n", "m"), {"axis": 1}),
                 ((1, 4), ("t", 3), {}), (("t", 4), (1, 3), {}),
                 ((1, 4), (1, 3), {}), ((1, 1, 4), ("t", "n", 3), {}),
                 (("t", "n", 4), ("t", 1, 3), {}),
                 (("t", 4), (3,), {"one_to_one": False}),
                 (("t", 4), ("n", 3), {"one_to_one": False})]
    for qa, va, kw in base:
        def want(E, arrs, kw=kw):
            return rotated(E, arrs["q"], arrs["v"], kw)
        F_.case(ctx, rep, "utils.rotate_vectors", {"q": qa, "v": va}, kw,
                want, name="rotate_vectors")


def quat_comps(a, axis=-1):
    return a.cells[()] if a.quat and not [x for x in a.axes
                                          if isinstance(x, int)] \
        else F_.comps(a, axis)


def rotated(E, q, v, kw):
    w = E.rot(list(quat_comps(q, kw.get("qaxis", -1))),
              F_.comps(v, kw.get("axis", -1)))
    qb = [x for i, x in enumerate(q.axes)
          if q.quat or i != kw.get("qaxis", -1) % len(q.axes)]
    vb = [x for i, x in enumerate(v.axes)
          if i != kw.get("axis", -1) % len(v.axes)]
    if kw.get("one_to_one", True) is False:
        b = qb + vb
        return F_.build(tuple(b) + (3,), -1, w)
    b = [x if x != 1 else y for x, y in zip(qb, vb)] if qb else vb
    ax = list(b)
    ax.insert(kw.get("axis", -1) % len(v.axes), 3)
    axes = tuple(ax)
    i = kw.get("axis", -1) % len(axes)
    return F_.build(axes, i, w)


def qinv(ctx, rep, deep=None):
    deep = ctx.deep if deep is None else deep
    base = [((4,), {}), (("t", 4), {}), (("t", "q!"), {})]
    if deep:
        base += [(("q!",), {}), ((4, "t"), {"qaxis": 0}),
                 (("t", 4, "n"), {"qaxis": 1}), ((4, "t", "n"), {"qaxis": 0}),
                 (("t", "n", 4), {}), (("t", "n", 4), {"qaxis": 2}),
                 ((4, "t", "n"), {"qaxis": -3})]
    for qa, kw in base:
        def want(E, arrs, kw=kw):
            q = arrs["q"]
            v = E.qinv(tuple(quat_comps(q, kw.get("qaxis", -1))))
            if q.quat:
                return F_.Arr(q.axes, {(): v}, True)
            return F_.build(q.axes, kw.get("qaxis", -1), v)
        F_.case(ctx, rep, "utils.qinv", {"q": qa}, kw, want, name="qinv")


def qmul(ctx, rep, deep=None):
    deep = ctx.deep if deep is None else deep
    base = [([(4,)] * 2, {}), ([("t", 4)] * 2, {}), ([("t", 4)] * 3, {}),
            ([("t", "q!")] * 2, {}), ([("t", "q!")] * 3, {})]
    if deep:
        base += [([(4, "t")] * 2, {"qaxis": 0}),
                 ([(4, "t", "n")] * 3, {"qaxis": 0}),
                 ([("t", 4, "n")] * 2, {"qaxis": 1}),
                 ([("t", "n", 4)] * 4, {}), ([("t", 4), (4,)], {}),
                 ([("t", "n", 4), ("n", 4)], {})]
    for shp, kw in base:
        def want(E, arrs, kw=kw):
            qs = list(arrs.values())
            v = tuple(quat_comps(qs[0], kw.get("qaxis", -1)))
            for q in qs[1:]:
                v = E.qmul(v, tuple(quat_comps(q, kw.get("qaxis", -1))))
            ax = max((q.axes for q in qs), key=len)
            if qs[0].quat:
                return F_.Arr(ax, {(): v}, True)
            return F_.build(ax, kw.get("qaxis", -1), v)
        F_.case(ctx, rep, "utils.qmul",
                {f"*{i}": s for i, s in enumerate(shp)}, kw, want,
                name="qmul")


# --- frame resolution

def resolve_frame(ctx, rep):
    """A frame resolves to itself, a name to the registry's entry."""
    rule = "frame-resolution"
    rep.rule(rule, "the frame argument resolver returns a frame unchanged "
                   "and maps a string to the entry of the frame registry "
                   "under exactly that string; every other kind of argument "
                   "and every unknown name raises")

    def go():
        I = ctx.interp()
        f = ctx.at(I, "core", "_resolve_rf")
        s = ctx.frame("rf")
        r = ctx.run(I, f, [s])
        rep.check(r is not None and r.k == s.k, rule, "frame",
                  f"a frame resolves to {show(r, 4) if r else 'nothing'}",
                  r.loc if r else None)
        I = ctx.interp()
        reg = ctx.registry(I)
        nm = sym("name", kind="str", nonnull=True)
        r = ctx.run(I, ctx.at(I, "core", "_resolve_rf"), [nm])
        ok = r is not None and registry_lookup(r, reg, nm)
        rep.check(ok, rule, "name",
                  f"a name resolves to {show(r, 5) if r else 'nothing'}",
                  r.loc if r else None)
        for what, a in (("None", const(None)), ("number", const(3))):
            I = ctx.interp()
            r = ctx.run(I, ctx.at(I, "core", "_resolve_rf"), [a])
            rep.check(r is None, rule, what,
                      "raises" if r is None else
                      f"resolves to {show(r, 4)}", r.loc if r else None)
    ctx.guarded(rule, "resolver", go)


def registry_lookup(r, reg, key):
    """Is r the registry's value under `key`?  None when not recognised."""
    if r.op == "phi":
        a = registry_lookup(r.args[1], reg, key)
        b = registry_lookup(r.args[2], reg, key)
        return None if None in (a, b) else a and b
    if r.op in ("item", "elem"):
        return r.args[0].k == reg.k and r.args[1].k == key.k
    if r.op == "call" or r.op.startswith("m:"):
        return None
    return False if is_const(r) else None
