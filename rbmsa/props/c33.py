"""C33: interpolating and inverting arrays of orientations."""
from ..ctx import N, const, cval, is_none, show, sym
from ..dom.algebra import Alg
from ..dom.arrays import Arr, Err, Top, compare, sym_array
from ..dom.deriv import Stamps, TimeEval, kwargs
from ..dom.labelled import Reader, Unknown, Var
from ..ir import is_const
from . import entries as E_
from .c15 import Desc, aligned, mentions, passes

INTERP = "interpolation"
ACC = "accessor"
QI = "rigid_body_motion.utils.qinterp"
QV = "rigid_body_motion.utils.qinv"


class SquadEval(TimeEval):
    """squad(R, t_in, t_out) interpolates along the first axis of R."""

    def o_quaternion_squad(self, n):
        k = kwargs(n, ("R_in", "t_in", "t_out"))
        a = self.arr(k["R_in"])
        ti, to = self.times(k["t_in"]), self.times(k["t_out"])
        if ti.cells is None or to.cells is None:
            return Top("stamps unknown", n.loc)
        if not a.quat:
            return Err("squad of an array that is not of quaternions", n.loc)
        if ti.ndim != 1 or to.ndim != 1:
            return Err("squad with stamps that are not one-dimensional",
                       n.loc)
        if not a.axes or a.axes[0] != ti.axes[0]:
            return Err(f"squad interpolates along axis "
                       f"{a.axes[0] if a.axes else None}, stamps of axis "
                       f"{ti.axes[0]}", n.loc)
        ci = self.seconds_of(ti.cells[()])
        co = (to.cells[()] / self.alg.var("tau_u")).const()
        if ci is not None and co is not None and ci != co:
            return Err(f"{ci} ticks per second in the input stamps, {co} in "
                       f"the output stamps", n.loc)
        axes = to.axes + a.axes[1:]
        if a.cells is None:
            return Arr(axes, None, True)
        return Arr(axes, {ix: tuple(
            self.alg.fn(f"squad{i}", *c, ti.cells[()], to.cells[()])
            for i in range(4)) for ix, c in a.cells.items()}, True)

    o_quaternion_quaternion_time_series_squad = o_quaternion_squad

    def restamped(self, n):
        v = self.val(n.args[0])
        if isinstance(v, Stamps) or isinstance(v, Arr) and \
                v.axes in (("t",), ("u",)) and v.cells and \
                not self.alg.support(v.cells[()]).isdisjoint(
                    self.alg.support(self.tau() + self.alg.var("tau_u"))):
            return Err(f"{n.op.rsplit('.')[-1]} changes which stamps the "
                       "values are for", n.loc)
        return Top(n.op, n.loc)

    o_numpy_unique = o_numpy_sort = o_numpy_clip = restamped
    o_builtins_sorted = o_numpy_flip = o_numpy_round = restamped

    # two time lines: the stamps of axis u are seconds `tau_u`
    def o_m_astype(self, n):
        v = self.val(n.args[0])
        r = super().o_m_astype(n)
        if isinstance(v, Stamps) and isinstance(r, Arr) and v.axes == ("u",):
            c = self.seconds_of(r.cells[()])
            return Arr(r.axes, {(): self.alg.num(c) * self.alg.var("tau_u")})
        return r


def check(ctx, rep):
    rep.rule(INTERP, "every component of the result is that of the spherical "
                     "interpolation of one series of quaternions of the "
                     "input along the given axis, at the output stamps, with "
                     "both time lines in the same unit, and the axes of the "
                     "result are those of the input")
    rep.rule(ACC, "the array, the stamps of the array, the requested stamps "
                  "and the positions of the two dimensions reach the "
                  "numerical routine, and the result is built with the "
                  "dimensions, name, attributes and coordinates specified")
    for axes, kw in (
            (("t", 4), {}), (("t", 4), {"axis": -2}),
            (("t", 4), {"axis": 0, "qaxis": 1}),
            ((4, "t"), {"axis": 1, "qaxis": 0}),
            ((4, "t"), {"axis": -1, "qaxis": -2}),
            (("t", "n", 4), {}), (("n", "t", 4), {"axis": 1}),
            (("n", "t", 4), {"axis": -2}),
            (("t", 4, "n"), {"qaxis": 1}), ((4, "t", "n"),
                                            {"axis": 1, "qaxis": 0}),
            ((4, "n", "t"), {"axis": 2, "qaxis": 0}),
            (("n", 4, "t"), {"axis": 2, "qaxis": 1}),
            (("n", 4, "t"), {"axis": -1, "qaxis": -2}),
            (("t", 2, 4), {}), ((2, "t", 4), {"axis": 1}),
            ((2, 4, "t"), {"axis": 2, "qaxis": 1}),
            ((4, 2, "t"), {"axis": -1, "qaxis": 0}),
            (("n", "m", "t", 4), {"axis": 2}),
            (("n", 4, "m", "t"), {"axis": 3, "qaxis": 1}),
            (("t", "q!"), {}), (("n", "t", "q!"), {"axis": 1}),
            (("n", "t", "q!"), {"axis": -1}),
            (("t", 3, "q!"), {"axis": -2})):
        for units in ((None, None), ("ns", "ns"), ("us", "ns"),
                      ("ms", "s")) if len(axes) == 2 or ctx.deep else (
                          (None, None), ("s", "us")):
            numeric(ctx, rep, axes, kw, units)
    accessor(ctx, rep, "time", {})
    accessor(ctx, rep, "time", {"qdim": const("components")})
    accessor(ctx, rep, "sample", {})
    inverse(ctx, rep, {})
    inverse(ctx, rep, {"qdim": const("components")})


def numeric(ctx, rep, axes, kw, units):
    con = f"qinterp({list(axes)}, " + ", ".join(
        f"{k}={v}" for k, v in kw.items()) + ")"
    con = con.replace("'", "").replace(", )", ")")
    if units != (None, None):
        con += f" stamps in {units[0]} and {units[1]}"

    def go():
        alg = Alg()
        I = ctx.interp()
        quat = axes[-1] == "q!"
        q = sym_array(alg, "q", axes[:-1] if quat else axes, quat)
        E = SquadEval(alg)
        s = {nm: sym(nm, kind="ndarray", nonnull=True)
             for nm in ("q", "ti", "to")}
        E.env[s["q"].k] = q
        tin = Arr(("t",), {(): E.tau()})
        tout = Arr(("u",), {(): alg.var("tau_u")})
        E.env[s["ti"].k] = tin if units[0] is None else Stamps(
            ("t",), units[0])
        E.env[s["to"].k] = tout if units[1] is None else Stamps(
            ("u",), units[1])
        r = ctx.run(I, ctx.at(I, "utils", "qinterp"),
                    [s["q"], s["ti"], s["to"]],
                    {k: const(v) for k, v in kw.items()})
        if r is None:
            rep.bad(INTERP, con, "every path raises")
            return
        qa = None if quat else kw.get("qaxis", -1) % q.ndim
        f = q
        if not quat:
            ia = E.swap(Arr(q.axes, q.cells), qa, q.ndim - 1, None)
            f = E.to_quat(ia)
        axs = f.axes
        out = tuple("u" if a == "t" else a for a in axs)
        # one scale factor for both time lines: interpolation is homogeneous
        for got in E.variants(r):
            good = None
            for c in (1, 10**9, 10**6, 10**3):
                k = alg.num(c)
                w = Arr(out, {ix: tuple(
                    alg.fn(f"squad{i}", *v, E.tau() * k,
                           alg.var("tau_u") * k) for i in range(4))
                    for ix, v in f.cells.items()}, True)
                if not quat:
                    w = E.swap(E.to_float(w), qa, q.ndim - 1, None)
                st, txt = compare(alg, got, w)
                good = good if good and good[0] else (st, txt) \
                    if good is None or st else good
            rep.check(good[0], INTERP, con, good[1], r.loc)
        rep.count("layouts", 1)
    ctx.guarded(INTERP, con, go)


def receiver(ctx, I, obj):
    ci = next((c for c in ctx.p.classes.values()
               if c.name == "DataArrayAccessor"), None)
    if ci is None:
        from ..program import AnalysisError
        raise AnalysisError("class DataArrayAccessor not found")
    o = I.call(E_.class_node(I, ci), [obj], {})
    I.raises, I.effects = [], []
    return o


def resolve(n, dim, t):
    """Value of the mapping of new coordinates {dim: t}."""
    kid = tuple(resolve(a, dim, t) if isinstance(a, N) else a
                for a in n.args)
    op = n.op
    if op.endswith("either_dict_or_kwargs"):
        return kid[0] if not is_none(kid[0]) else kid[1]
    if op in ("builtins.dict", "m:keys", "builtins.list", "builtins.iter",
              "m:copy", "m:items", "builtins.tuple") and len(kid) == 1 and \
            kid[0].op == "dict":
        return N("iter:" + op, kid) if op == "m:items" else kid[0]
    if op == "builtins.next" and kid[0].op == "dict":
        return dim
    if op == "builtins.next" and kid[0].op == "iter:m:items":
        return N("tuple", (dim, t))
    if op == "item" and kid[0].op == "dict" and kid[1].k == dim.k:
        return t
    if op == "item" and kid[0].op == "tuple" and kid[1].op == "const" and \
            isinstance(cval(kid[1]), int) and cval(kid[1]) < len(kid[0].args):
        return kid[0].args[cval(kid[1])]
    if op == "item" and kid[0].op == "dict" and kid[1].op == "const" and \
            cval(kid[1]) == 0:
        return dim      # list(coords)[0]
    if all(a is b for a, b in zip(kid, n.args)):
        return n
    return N(op, kid, n.meta, uid=n.uid, loc=n.loc)


def position(n):
    """(object, dimension) of obj.dims.index(dim) or get_axis_num."""
    if n.op == "m:index" and n.args[0].op == "attr" and \
            n.args[0].meta == "dims":
        return n.args[0].args[0], n.args[1]
    if n.op == "m:get_axis_num":
        return n.args[0], n.args[1]
    if n.op == "m:index" and n.args[0].op in ("builtins.list",
                                              "builtins.tuple"):
        return position(N("m:index", (n.args[0].args[0], n.args[1])))
    return None


def raw(n):
    """The labelled array an argument carries the values of."""
    while (n.op == "attr" and n.meta in ("values", "data")) or n.op in (
            "numpy.asarray", "numpy.asanyarray", "m:to_numpy",
            "numpy.array"):
        n = n.args[0]
    return n


def is_coord(n, obj, dim):
    n = raw(n)
    if n.op != "item" or n.args[1].k != dim.k:
        return False
    b = n.args[0]
    return b.k == obj.k or (b.op == "attr" and b.meta in (
        "coords", "indexes") and b.args[0].k == obj.k)


def verdict(rep, con, what, ok, n, loc=None):
    rep.check(ok, ACC, f"{con}: {what}", show(n)[:160], n.loc or loc)


def accessor(ctx, rep, name, kw):
    con = f"DataArray.rbm.qinterp({name}=...)" + "".join(
        f" {k}={cval(v)}" for k, v in kw.items())

    def run(as_dict):
        I = ctx.interp()
        calls = []

        def qi(I, a, k):
            k = dict(zip(("q", "t_in", "t_out", "axis", "qaxis"), a), **k)
            calls.append(k)
            return I.mk("op:qinterp", tuple(
                k.get(x, const({"axis": 0, "qaxis": -1}.get(x)))
                for x in ("q", "t_in", "t_out", "axis", "qaxis")))
        I.overrides[QI] = qi
        obj = sym("obj", kind="dataarray", nonnull=True)
        t = sym("new_stamps", nonnull=True)
        o = receiver(ctx, I, obj)
        d = N("dict", ((const(name), t),))
        f = I.getattr(o, "qinterp")
        r = ctx.run(I, f, [d] if as_dict else [],
                    dict(kw) if as_dict else {**kw, name: t})
        return I, obj, t, calls, r

    def go(as_dict=True):
        c = con + ("" if as_dict else " by keyword")
        I, obj, t, calls, r = run(as_dict)
        if r is None:
            rep.bad(ACC, c, "every path raises")
            return
        dim = const(name)
        qdim = kw.get("qdim", const("quaternion_axis"))
        if len(calls) != 1:
            rep.check(None, ACC, c, f"{len(calls)} interpolations", r.loc)
            return
        k = {x: resolve(v, dim, t) for x, v in calls[0].items()}
        verdict(rep, c, "values", raw(k["q"]).k == obj.k, k["q"])
        verdict(rep, c, "stamps of the array", is_coord(
            k["t_in"], obj, dim), k["t_in"])
        verdict(rep, c, "requested stamps", raw(k["t_out"]).k == t.k,
                k["t_out"])
        for x, want in (("axis", dim), ("qaxis", qdim)):
            v = k.get(x, const({"axis": 0, "qaxis": -1}[x]))
            p = position(v)
            verdict(rep, c, f"{x} is the position of {cval(want)}",
                    False if v.op == "const" else None if p is None else
                    p[0].k == obj.k and p[1].k == want.k, v)
        rr = resolve(r, dim, t)
        R = Reader(I)
        try:
            v = R.read(rr)
        except Unknown as e:
            rep.unknown(ACC, c, f"result: {e}", r.loc)
            return
        data = v.data if isinstance(v, Var) else rr
        verdict(rep, c, "result holds the interpolated values",
                raw(data).op == "op:qinterp", data, r.loc)
        for what, got in (("dims", v.dims), ("name", v.name)):
            if got is None:
                rep.bad(ACC, f"{c}: {what}", "not passed on", r.loc)
            else:
                verdict(rep, c, what, got.op == "attr" and got.meta == what
                        and got.args[0].k == obj.k, got)
        at = v.attrs.base if v.attrs is not None else None
        rep.check(at is not None and at.op == "attr" and at.meta == "attrs"
                  and at.args[0].k == obj.k and not v.attrs.d, ACC,
                  f"{c}: attributes", show(at) if at is not None
                  else "not passed on", r.loc)
        D = Desc(rep, c, R, r.loc)
        D.ob = lambda ok, what, found: rep.check(
            ok, ACC, f"{c}: {what}", found, r.loc)
        base = v.coords.base if v.coords is not None else None
        while base is not None and base.op in ("loop", "mu"):
            base = base.args[1 if base.op == "loop" else 0]
        while base is not None and base.args and base.op in (
                "builtins.dict", "m:copy", "dictcomp"):
            base = base.args[0]
        if base is not None and base.op == "dict" and not base.args and \
                v.coords.soft:
            base = rebuilt(v.coords.soft[-1]) or base
            done = passes(v.coords.soft[-1], dim, t) if \
                v.coords.soft[-1].op == "loop" and \
                len(v.coords.soft) == 1 else None
            if done is not None and not any(
                    h == "dropped" for _, h in done):
                base = I.getattr(obj, "coords")
        rep.check(base is not None and base.op == "attr" and base.meta ==
                  "coords" and base.args[0].k == obj.k, ACC,
                  f"{c}: coordinates start from those of the array",
                  show(base)[:80] if base is not None else "missing", r.loc)
        if v.coords is None:
            return
        aligned(D, v.coords, dim, t)
        own(D, v.coords, dim, t)
    for as_dict in (True, False):
        ctx.guarded(ACC, con, lambda as_dict=as_dict: go(as_dict))


def rebuilt(lp):
    """The coordinates that a loop stores one by one under their names."""
    if lp.op != "loop" or len(lp.args) < 5 or lp.args[3].op != "update":
        return None
    it, b = lp.args[0], lp.args[3]
    if it.op not in ("m:items", "dictitems") or b.args[0].op != "mu" or \
            not is_const(lp.args[4], True):
        return None
    k = b.args[1]
    if k.op == "item" and k.args[0].op == "elem" and is_const(
            k.args[1], 0) and k.args[0].args[0].k == it.k:
        return it.args[0]
    return None


def own(D, co, dim, t):
    """The coordinate of the interpolated dimension is the new one."""
    what = "coordinate of the interpolated dimension"
    g = co.get(cval(dim))
    if isinstance(g, N):
        D.ob(g.k == t.k, what, show(g)[:120])
        return
    if not co.soft:
        D.ob(False, what, "kept from the input")
        return
    lp = co.soft[-1]
    done = passes(lp, dim, t) if lp.op == "loop" else None
    if done is not None:
        how = done[0][1]
        D.ob(None if isinstance(how, N) else how == "stamps", what,
             "the new one" if how == "stamps" else show(how)[:100]
             if isinstance(how, N) else how)
        return
    body = lp.args[3] if lp.op == "loop" and len(lp.args) > 3 else None

    def cond(c):
        if c.op == "not":
            d = cond(c.args[0])
            return None if d is None else not d
        if c.op == "cmp" and c.meta == "==":
            o = [a for a in c.args if not mentions(
                a, lambda n: n.op == "elem")]
            if len(o) == 1 and o[0].op == "const":
                return o[0].k == dim.k
        # an index coordinate lies along its own dimension
        if c.op == "in_" and c.args[0].k == dim.k and \
                c.args[1].op == "attr" and c.args[1].meta == "dims":
            return True
        return None

    def leaves(n):
        if n.op != "phi":
            return [n]
        d = cond(n.args[0])
        return (leaves(n.args[1]) if d is not False else []) + (
            leaves(n.args[2]) if d is not True else [])
    if body is None:
        D.ob(None, what, show(lp)[:120])
        return
    for x in leaves(body):
        if x.op == "update":
            for y in leaves(x.args[2]):
                D.ob(raw(y).k == raw(t).k, what, show(y)[:120])
        else:
            D.ob(False if x.op == "mu" else None, what,
                 "kept from the input" if x.op == "mu" else show(x)[:120])


# arrays with the names, coordinates and attributes of another one
LIKE = ("xarray.zeros_like", "xarray.ones_like", "xarray.full_like")


def inverse(ctx, rep, kw):
    con = "DataArray.rbm.qinv()" + "".join(
        f" {k}={cval(v)}" for k, v in kw.items())

    def go():
        I = ctx.interp()
        calls = []

        def qv(I, a, k):
            k = dict(zip(("q", "qaxis"), a), **k)
            calls.append(k)
            return I.mk("op:qinv", (k["q"], k.get("qaxis", const(-1))))
        I.overrides[QV] = qv
        obj = sym("obj", kind="dataarray", nonnull=True)
        o = receiver(ctx, I, obj)
        r = ctx.run(I, I.getattr(o, "qinv"), [], dict(kw))
        qdim = kw.get("qdim", const("quaternion_axis"))
        if r is None or len(calls) != 1:
            n = r
            while n is not None and n.op == "setattr" and n.meta in (
                    "values", "data"):
                n = n.args[1]
            same = r is None or raw(n).k == obj.k or n.op == "m:copy" and \
                n.args[0].k == obj.k and len(n.args) == 1
            rep.check(False if same else None, ACC, con,
                      "every path raises" if r is None else
                      f"{len(calls)} inversions")
            return
        k = calls[0]
        verdict(rep, con, "values", raw(k["q"]).k == obj.k, k["q"])
        p = position(k.get("qaxis", const(-1)))
        verdict(rep, con, f"position of {cval(qdim)}",
                False if k.get("qaxis", const(-1)).op == "const" else
                None if p is None else
                p[0].k == obj.k and p[1].k == qdim.k,
                k.get("qaxis", const(-1)))
        n = r
        data = None
        while n.op == "setattr" and n.meta in ("values", "data", "attrs",
                                               "name"):
            if n.meta in ("values", "data"):
                data = data or n.args[1]
            else:
                v = raw(n.args[1])
                while v.op in ("builtins.dict", "m:copy"):
                    v = v.args[0]
                verdict(rep, con, n.meta,
                        True if v.op == "attr" and v.meta == n.meta and
                        v.args[0].k == obj.k else
                        False if v.op in ("dict", "const") else None, v)
            n = n.args[0]
        if data is None and n.op == "m:copy":
            data = next((a for a in n.args[1:] if a.op == "op:qinv"), None)
        if n.op == "xarray.DataArray":
            try:
                v = Reader(I).read(n)
            except Unknown as e:
                rep.unknown(ACC, con, str(e), r.loc)
                return
            verdict(rep, con, "result", raw(v.data).op == "op:qinv", v.data)
            for what, g in (("dims", v.dims), ("name", v.name),
                            ("attrs", v.attrs.base if v.attrs else None),
                            ("coords", v.coords.base if v.coords else None)):
                rep.check(g is not None and g.op == "attr" and g.meta == what
                          and g.args[0].k == obj.k, ACC, f"{con}: {what}",
                          "kept" if g is not None else "not passed on",
                          r.loc)
            return
        verdict(rep, con, "result is a copy of the array",
                True if n.op in ("m:copy", "copy.copy", "copy.deepcopy") and
                n.args[0].k == obj.k or n.op in LIKE and data is not None and
                n.args[0].k == obj.k else
                False if n.k == obj.k else None, n)
        verdict(rep, con, "result holds the inverse",
                data is not None and data.op == "op:qinv",
                data if data is not None else r, r.loc)
    ctx.guarded(ACC, con, go)
