"""C29: plots show the data: positions, directions, colours and limits."""
from ..ctx import N, PKG, const, show, sym
from ..dom.algebra import Alg, Points
from ..dom.arrays import Arr, ArrayEval, Bail, Err, Top, compare, sym_array
from . import formula as F_

DRAWS = {"plot": 3, "plot3D": 3, "quiver": 6, "quiver3D": 6}
SPACE = "xyz"


class Plot:
    """Interpreter with recorded calls on axes."""

    def __init__(self, ctx):
        self.ctx, self.ev = ctx, []
        I = self.I = ctx.interp()
        for what in ("points", "vectors", "quaternions"):
            q = f"{PKG}.transform_{what}"
            if q in I.p.funcs:
                I.overrides[q] = self.moved(what)
        for m in DRAWS:
            I.method_hooks[m] = self.log(m)
        I.method_hooks["add_artist"] = self.log("add_artist")
        I.method_hooks["figure"] = self.figure
        I.extern_hooks["matplotlib.pyplot.figure"] = lambda I, a, k: \
            self.figure(I, [None] + list(a), k)
        for m in ("add_subplot", "add_axes"):
            I.method_hooks[m] = self.subplot
        for a in SPACE:
            for sfx in ("", "3d"):
                I.method_hooks[f"get_{a}lim{sfx}"] = self.get(a)
                I.method_hooks[f"set_{a}lim{sfx}"] = self.set(a)

    def log(self, m):
        def f(I, a, k):
            r = sym(f"drawn{len(self.ev)}", nonnull=True)
            self.ev.append((m, a[0], list(a[1:]), dict(k), I.st.pc, I.loc, r))
            return r
        return f

    def figure(self, I, a, k):
        r = sym(f"figure{len(self.ev)}", nonnull=True)
        self.ev.append(("figure", None, list(a[1:]), dict(k), I.st.pc, I.loc,
                        r))
        return r

    def subplot(self, I, a, k):
        r = sym(f"axes{len(self.ev)}", nonnull=True)
        self.ev.append(("axes", a[0], list(a[1:]), dict(k), I.st.pc, I.loc,
                        r))
        return r

    def get(self, c):
        def f(I, a, k):
            i = len(self.ev)
            r = tuple(sym(f"{c}{w}{i}", kind="float") for w in ("lo", "hi"))
            self.ev.append(("get", a[0], [c], {}, I.st.pc, I.loc, r))
            return N("tuple", r)
        return f

    def set(self, c):
        def f(I, a, k):
            r = I.mk("lims", ())
            self.ev.append(("set", a[0], [c] + list(a[1:]), dict(k), I.st.pc,
                            I.loc, r))
            return r
        return f

    def moved(self, what):
        def f(I, args, kwargs):
            names = ["arr", "into", "outof", "dim", "axis", "timestamps",
                     "time_axis", "return_timestamps"]
            k = {**dict(zip(names, args)), **kwargs}
            if set(k) - {"arr", "into", "outof"} or "outof" not in k:
                return I.mk("moved?", tuple(k.values()))
            return I.mk("moved", (k["arr"], k["into"], k["outof"]), what)
        return f

    # ----------------------------------------------------------- replaying
    def replay(self, E):
        """Events of one case with the limits in force: [(event, limits)]."""
        al = E.alg

        def fresh(c, v):
            m = al.var(f"{c}mid{v}")
            w = al.abs(al.var(f"{c}half{v}"))
            return (m - w, m + w)
        lims, out, v = {}, [], 0
        for e in self.ev:
            for c, pol in e[4]:
                t = E.truthy(c)
                if t is None:
                    raise Undecided("condition " + show(c, 3), e[5])
                if t != pol:
                    break
            else:
                what, ax, a = e[0], e[1], e[2]
                if what in DRAWS and any(x.op == "star" for x in a):
                    a = spread(E, a)
                    e = e[:2] + (a,) + e[3:]
                if what in DRAWS:
                    v += 1
                    lims = {}
                if what in ("get", "set"):
                    c = a[0]
                    if (ax.k, c) not in lims:
                        lims[ax.k, c] = fresh(c, v)
                if what == "get":
                    for s, x in zip(e[6], lims[ax.k, c]):
                        E.env[s.k] = Arr((), {(): x})
                    continue
                if what == "set":
                    lims[ax.k, c] = self.pair(E, e, lims[ax.k, c])
                out.append((e, dict(lims), v))
        return out

    def pair(self, E, e, old):
        pos, kw = e[2][1:], e[3]
        new = list(old)
        vals = []
        if len(pos) == 1 and not any(k in kw for k in ("right", "top")):
            try:
                vals = list(E.items_of(E.arr(pos[0])) or ())
            except Bail:
                vals = []
            vals = [E.as_arr(x) for x in vals]
            if len(vals) != 2:
                raise Undecided("limits " + show(pos[0], 3), e[5])
        else:
            vals = [E.arr(x) for x in pos]
        for i, v in enumerate(vals[:2]):
            new[i] = v.cells[()]
        for nm, n in kw.items():
            i = {"left": 0, "bottom": 0, "xmin": 0, "ymin": 0, "zmin": 0,
                 "right": 1, "top": 1, "xmax": 1, "ymax": 1,
                 "zmax": 1}.get(nm)
            if i is None:
                raise Undecided(f"limits with {nm}", e[5])
            new[i] = E.arr(n).cells[()]
        return tuple(new)


def spread(E, args):
    """Arguments with `*array` replaced by its elements."""
    out = []
    for x in args:
        if x.op != "star":
            out.append(x)
            continue
        v = E.ev(x.args[0])
        if isinstance(v, Arr):
            v = E.items_of(v)
        if not isinstance(v, (list, tuple)):
            raise Undecided("arguments " + show(x, 3), x.loc)
        for i, y in enumerate(v):
            s = sym(f"{x.k}:{i}")
            E.env[s.k] = y
            out.append(s)
    return out


class Undecided(Exception):
    def __init__(self, why, loc=None):
        super().__init__(why)
        self.loc = loc


class Eval(ArrayEval):
    """With a rigid motion for the transform to the world frame."""
    world = frame = choose = None

    def o_moved(self, n):
        a, into, outof = n.args
        if into.k == self.world.k and outof.k == self.frame.k:
            w = ""
        elif into.k == self.frame.k and outof.k == self.world.k:
            w = "inverse "
        else:
            w = f"{show(outof, 2)} to {show(into, 2)} "
        v = self.arr(a)
        if n.meta == "quaternions":
            return Err("an array of points is transformed as quaternions",
                       n.loc)
        return moved(self.alg, v, w, n.meta == "points")

    def truthy(self, n):
        t = super().truthy(n)
        if t is None and n.op in ("isnone", "cmp") and self.choose:
            return self.choose(n)
        return t

    def o_numpy_max(self, n, pick="maximum"):
        v = self.as_arr(self.val(n.args[0]))
        ax = self.val(n.args[1]) if len(n.args) > 1 else None
        if v.quat:
            return Top(n.op, n.loc)

        def f(c):
            r = c[0]
            for x in c[1:]:
                r = self.alg.fn(pick, r, x)
            return r
        if ax is None:
            if not all(isinstance(x, int) for x in v.axes):
                return Top(n.op, n.loc)
            return Arr((), {(): f([v.cells[i] for i in sorted(v.cells)])})
        return self.reduce_axis(v, ax, f, False, n.loc)

    o_numpy_amax = o_numpy_nanmax = o_numpy_max

    def o_numpy_min(self, n):
        return self.o_numpy_max(n, "minimum")

    o_numpy_amin = o_numpy_nanmin = o_numpy_min

    def o_numpy_ptp(self, n):
        return self.arith("-", self.o_numpy_max(n), self.o_numpy_min(n),
                          n.loc)

    def o_builtins_max(self, n, pick=max):
        r = super().o_builtins_max(n, pick)
        if not isinstance(r, Top):
            return r
        vs = [self.as_arr(self.val(a)) for a in n.args]
        if len(vs) == 1:
            vs = [self.as_arr(x) for x in self.items_of(vs[0]) or ()]
        if not vs or any(v.axes != () or v.quat for v in vs):
            return r
        c = vs[0].cells[()]
        for v in vs[1:]:
            c = self.alg.fn("maximum" if pick is max else "minimum", c,
                            v.cells[()])
        return Arr((), {(): c})


def moved(al, v, w="", shift=True):
    if v.quat or not v.axes or v.axes[-1] != 3 or v.cells is None:
        return Top("transform of something else than points")
    cells = {}
    for ix, _ in v.cells.items():
        i = ix[-1]
        c = al.var(f"{w}t{i}") if shift else al.num(0)
        for j in range(3):
            c = c + al.var(f"{w}R{i}{j}") * v.cells[ix[:-1] + (j,)]
        cells[ix] = c
    return Arr(v.axes, cells)


def check(ctx, rep):
    rep.rule("drawn", "the coordinates, options and receiver of every "
                      "drawing call are the specified expressions of the "
                      "arguments, for each layout of them")
    rep.rule("limits", "after drawing, the limits of the three axes contain "
                       "what is drawn and have equal range")
    rep.rule("rejects", "arrays of other shapes reach a raise of ValueError")
    one = {"fmt": const("ro")}
    for shp, kw in (((3,), {}), (("t", 3), one), ((3, 3), {}), ((1, 3), {}),
                    ((4, 3), one), ((2, 3), {})):
        for new in (False, True):
            points(ctx, rep, shp, kw, new)
    for shp, base in (((3,), None), ((3,), (3,)), (("t", 3), None),
                      (("t", 3), ("t", 3)), ((3, 3), (3, 3)),
                      ((1, 3), (1, 3)), ((2, 3), None), ((1, 3), (3,)),
                      ((3,), (1, 3))):
        for new in (False, True):
            vectors(ctx, rep, shp, base, new)
    for shp, base in (((4,), None), ((4,), (3,)), (("t", 4), None),
                      (("t", 4), ("t", 3)), ((4, 4), (4, 3)),
                      ((3, 4), (3, 3)), ((3, 4), None)):
        for new in (False, True):
            quaternions(ctx, rep, shp, base, new)
    for name, shapes in (
            ("plot_points", [{"arr": ("t", 2)}, {"arr": ("t", 4)},
                             {"arr": ("t", "n", 3)}, {"arr": (2,)},
                             {"arr": (4,)}, {"arr": (3, "t")},
                             {"arr": (1, "t", 3)}, {"arr": ("t", 3, "n")},
                             {"arr": ("t", 3, 3)}, {"arr": (3, 3, 3)}]),
            ("plot_vectors", [{"arr": ("t", 2)}, {"arr": (4,)},
                              {"arr": ("t", "n", 3)}, {"arr": (3, "t")},
                              {"arr": ("t", 3), "base": (3,)},
                              {"arr": ("t", 3), "base": ("n", 3)},
                              {"arr": ("t", 3), "base": ("t", 2)},
                              {"arr": (3,), "base": ("t", 3)},
                              {"arr": ("t", 3), "base": (1, 3)},
                              {"arr": ("t", 3, "n")}, {"arr": ("t", 3, 3)},
                              {"arr": (3, 3, 3)}])):
        for s in shapes:
            refused(ctx, rep, name, s)
    for world in (False, True):
        for new in (False, True):
            frame(ctx, rep, world, new)
    moving(ctx, rep)


def setup(ctx, name, new):
    P = Plot(ctx)
    f = ctx.at(P.I, "plotting", name)
    kw = {"figsize": sym("figsize", nonnull=True),
          "ax": const(None) if new else sym("ax", nonnull=True)}
    return P, f, kw


class Judge:
    def __init__(self, rep, construct):
        self.rep, self.what, self.loc, self.calls = rep, construct, None, ()

    def ob(self, st, what, detail="", rule="drawn"):
        self.rep.check(st, rule, f"{self.what}: {what}", detail, self.loc)
        return st

    def arr(self, E, n, want, what):
        if n is None:
            return self.ob(False, what, "missing")
        v = E.ev(n)
        if not isinstance(v, (Top, Err)):
            v = E.as_arr(v)
        st, txt = compare(E.alg, v, want)
        self.rep.count("coordinates_compared")
        return self.ob(st, what, txt)


def receiver(J, evs, new, drawn):
    """All drawing happens on the given axes, or on one new set of axes."""
    axs = {e[1].k: e[1] for e, _, _ in evs if e[0] in drawn or
           e[0] == "set"}
    made = [e for e, _, _ in evs if e[0] == "axes"]
    figs = [e for e, _, _ in evs if e[0] == "figure"]
    if not new:
        ok = len(axs) == 1 and next(iter(axs.values())).meta[0] == "ax"
        return J.ob(ok, "drawn onto the given axes",
                    ", ".join(show(a, 3) for a in axs.values()))
    if not made and axs:
        return J.ob(None, "drawn onto new axes", "axes not recognised")
    ok = len(axs) == 1 and len(made) == 1 and made[0][6].k in axs
    J.ob(ok, "drawn onto one new set of axes",
         ", ".join(show(a, 3) for a in axs.values()))
    if not ok:
        return ok
    p = made[0][3].get("projection")
    J.ob(p is not None and p.op == "const" and p.meta[2] == "3d" or (
        None if p is not None and p.op != "const" else False),
        "new axes are three-dimensional", show(p, 3) if p else "missing")
    n = made[0][1]
    fig = [f for f in figs if n is not None and f[6].k == n.k]
    if not fig:
        return J.ob(None, "figure of the new axes", "not recognised")
    s = fig[0][3].get("figsize")
    return J.ob(s is not None and s.op == "in" and s.meta[0] == "figsize" or
                (None if s is not None and s.op not in ("const", "tuple")
                 else False),
                "figure has the given size",
                show(s, 3) if s is not None else "not passed on")


def passed(J, e, names):
    """Further keyword arguments reach the drawing call."""
    for nm in names:
        v = e[3].get(nm)
        J.ob(v is not None and v.op == "in" and v.meta[0] == nm,
             f"option {nm} passed on", show(v, 3) if v is not None else
             "missing")


def columns(a):
    """The three columns of an array of points, as specified."""
    if len(a.axes) == 1:
        a = Arr((1,) + a.axes, {(0,) + ix: c for ix, c in a.cells.items()})
    n = a.axes[0]
    if isinstance(n, int):
        return [Arr((n,), {(i,): a.cells[i, j] for i in range(n)})
                for j in range(3)]
    return [Arr((n,), {(): a.cells[j,]}) for j in range(3)]


def limits(J, E, evs, old=None, pts=()):
    """Final limits against the limits in force after the last drawing."""
    al = E.alg
    last = max((i for i, (e, _, _) in enumerate(evs) if e[0] in DRAWS or
                e[0] == "add_artist"), default=None)
    if last is None:
        return
    ax = evs[last][0][1]
    v = evs[last][2]
    fin = evs[-1][1]
    J.loc = evs[-1][0][5]
    base = {}
    for c in SPACE:
        m, w = al.var(f"{c}mid{v}"), al.abs(al.var(f"{c}half{v}"))
        base[c] = (m - w, m + w)
        for p in pts:
            x = p.cells[SPACE.index(c),]
            base[c] = (al.fn("minimum", base[c][0], x),
                       al.fn("maximum", base[c][1], x))
    # calls that may set limits in a way that is not followed
    other = any(c[0] in ("apply", "applied") or c[0].startswith((
        "m:set_", "m:auto", "m:margins", "m:apply", "m:set"))
        for c in J.calls)
    no = None if other else False
    if not fin:
        J.ob(no, "limits", "no limits are set "
             "after drawing", "limits")
        return
    got = {c: fin.get((ax.k, c), base[c] if not pts else
                      (al.var(f"{c}mid{v}") - al.abs(al.var(f"{c}half{v}")),
                       al.var(f"{c}mid{v}") + al.abs(al.var(f"{c}half{v}"))))
           for c in SPACE}
    J.rep.count("limits_compared", 3)
    n = 0
    for env in Points(60):
        try:
            memo = {}

            def val(x):
                return al.evalf(x, env, memo)
            g = {c: tuple(map(val, got[c])) for c in SPACE}
            b = {c: tuple(map(val, base[c])) for c in SPACE}
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        except NotImplementedError as x:
            return J.ob(None, "limits", str(x), "limits")
        n += 1
        big = max(abs(x) for p in (*g.values(), *b.values()) for x in p)
        eps = 1e-9 * big + 1e-12
        for c in SPACE:
            if g[c][0] > b[c][0] + eps or g[c][1] < b[c][1] - eps:
                return J.ob(no, f"{c} limits contain what is drawn",
                            f"[{got[c][0]!r}, {got[c][1]!r}]"[:200],
                            "limits")
        r = [g[c][1] - g[c][0] for c in SPACE]
        if max(r) - min(r) > 10 * eps:
            return J.ob(no, "axes have equal range",
                        "ranges differ", "limits")
    return J.ob(True if n >= 12 else None, "limits", "contain everything "
                "drawn, equal range", "limits")


def go(ctx, rep, construct, fn):
    J = Judge(rep, construct)

    def run():
        try:
            fn(J)
        except Undecided as e:
            rep.unknown("drawn", construct, str(e), e.loc)
    ctx.guarded("drawn", construct, run)


def begin(ctx, P, f, shapes, kw):
    """(result, evaluator, arrays, raise certainly reached)"""
    alg = Alg()
    arrs = F_.make(alg, shapes)
    E = Eval(alg, {})
    args = {}
    for nm, a in arrs.items():
        s = sym(nm, kind="ndarray", nonnull=True)
        E.env[s.k] = a
        args[nm] = s
    r = ctx.run(P.I, f, [], {**args, **kw})
    ra = F_.taken(P.I, E)
    return r, E, arrs, ra


def drawn_calls(P, E, J, r, ra, n):
    J.calls = P.I.calls
    if ra is not None and ra is not F_.MAYBE:
        J.loc = ra.loc
        J.ob(False, "accepted", f"raises {ra.how}")
        return None
    if r is None:
        J.ob(None, "accepted", "every path raises")
        return None
    evs = P.replay(E)
    d = [e for e, _, _ in evs if e[0] in DRAWS]
    if len(d) != n:
        J.ob(None if d or len(P.I.calls) > 60 else False,
             f"{n} drawing calls", f"{len(d)} found")
        return None
    return evs, d


def points(ctx, rep, shp, opts, new):
    label = f"plot_points({list(shp)}{', fmt' if opts else ''}" \
        f"{', new axes' if new else ''})"

    def fn(J):
        P, f, kw = setup(ctx, "plot_points", new)
        kw.update(opts, alpha=sym("alpha", nonnull=True))
        r, E, arrs, ra = begin(ctx, P, f, {"arr": shp}, kw)
        x = drawn_calls(P, E, J, r, ra, 1)
        if x is None:
            return
        evs, (e,) = x
        J.loc = e[5]
        for n, w, c in zip(e[2], columns(arrs["arr"]), SPACE):
            J.arr(E, n, w, f"{c} coordinates")
        J.ob(len(e[2]) >= 3, "three coordinates", f"{len(e[2])}")
        fm = [n for n in e[2][3:] if n.op == "const"]
        fm += [e[3][k] for k in ("fmt",) if k in e[3]]
        want = "ro" if opts else ""
        J.ob(any(n.meta[2] == want for n in fm) or (not opts and not fm),
             "format passed on", ", ".join(show(n) for n in e[2][3:]))
        passed(J, e, ["alpha"])
        receiver(J, evs, new, DRAWS)
        back(J, r, [e])
        limits(J, E, evs)
    go(ctx, rep, label, fn)


def back(J, r, es, seq=False):
    """What was drawn is returned."""
    got = list(r.args) if seq and r.op in ("list", "tuple") else [r]
    J.ob([x.k for x in got] == [e[6].k for e in es] or (
        None if r.op not in ("list", "tuple", "const", "in") else False),
        "returns what was drawn", show(r, 3))


def arrows(J, E, e, base, vec):
    J.loc = e[5]
    for n, w, c in zip(e[2], columns(base), SPACE):
        J.arr(E, n, w, f"{c} of the base")
    for n, w, c in zip(e[2][3:], columns(vec), SPACE):
        J.arr(E, n, w, f"{c} of the vectors")
    J.ob(len(e[2]) == 6, "base and direction", f"{len(e[2])} arguments")


def zeros(al, a):
    return Arr(a.axes, {ix: al.num(0) for ix in a.cells})


def vectors(ctx, rep, shp, base, new):
    label = f"plot_vectors({list(shp)}" + \
        (f", base={list(base)}" if base else "") + \
        f"{', new axes' if new else ''})"

    def fn(J):
        P, f, kw = setup(ctx, "plot_vectors", new)
        kw.update(alpha=sym("alpha", nonnull=True))
        shapes = {"arr": shp}
        if base:
            shapes["base"] = base
        r, E, arrs, ra = begin(ctx, P, f, shapes, kw)
        x = drawn_calls(P, E, J, r, ra, 1)
        if x is None:
            return
        evs, (e,) = x
        arrows(J, E, e, arrs["base"] if base else zeros(E.alg, arrs["arr"]),
               arrs["arr"])
        passed(J, e, ["alpha"])
        receiver(J, evs, new, DRAWS)
        back(J, r, [e])
        limits(J, E, evs)
    go(ctx, rep, label, fn)


def quaternions(ctx, rep, shp, base, new):
    label = f"plot_quaternions({list(shp)}" + \
        (f", base={list(base)}" if base else "") + \
        f"{', new axes' if new else ''})"

    def fn(J):
        P, f, kw = setup(ctx, "plot_quaternions", new)
        kw.update(alpha=sym("alpha", nonnull=True))
        shapes = {"arr": shp}
        if base:
            shapes["base"] = base
        r, E, arrs, ra = begin(ctx, P, f, shapes, kw)
        x = drawn_calls(P, E, J, r, ra, 3)
        if x is None:
            return
        evs, es = x
        al = E.alg
        seen = set()
        for e in es:
            J.loc = e[5]
            col = e[3].get("color")
            c = col.meta[2] if col is not None and col.op == "const" else None
            if c not in ("r", "g", "b"):
                J.ob(None if c is None and col is not None and
                     col.op != "const" else False,
                     "colour of an axis", show(col, 3) if col is not None
                     else "missing")
                continue
            seen.add(c)
            i = "rgb".index(c)
            u = tuple(al.num(int(j == i)) for j in range(3))
            vec = F_.mapped([(arrs["arr"], -1)], lambda q: E.rot(q, u), 3,
                            -1)
            arrows(J, E, e, arrs["base"] if base else zeros(al, vec), vec)
            passed(J, e, ["alpha"])
        J.ob(seen == set("rgb"), "an arrow for each axis",
             ", ".join(sorted(seen)))
        receiver(J, evs, new, DRAWS)
        if r.op in ("list", "tuple"):
            order = {"r": 0, "g": 1, "b": 2}
            es = sorted(es, key=lambda e: order.get(
                e[3]["color"].meta[2] if "color" in e[3] and
                e[3]["color"].op == "const" else "", 9))
            back(J, r, es, True)
        limits(J, E, evs)
    go(ctx, rep, label, fn)


def refused(ctx, rep, name, shapes):
    construct = f"{name}({F_.label_shapes(shapes)})"
    for lens in F_.orders(shapes):
        def run(lens=lens):
            P, f, kw = setup(ctx, name, False)
            r, E, arrs, ra = begin(ctx, P, f, shapes, kw)
            E.lens.update(lens)
            ra = F_.taken(P.I, E)
            if ra is None and r is not None:
                v = [e for e in P.ev if e[0] in DRAWS]
                rep.check(False if v else None, "rejects", construct,
                          "accepted", v[0][5] if v else None)
            elif ra is F_.MAYBE or ra is None:
                rep.unknown("rejects", construct, "conditions not decided")
            else:
                rep.check(ra.how == "ValueError", "rejects", construct,
                          f"raises {ra.how}", ra.loc)
        ctx.guarded("rejects", construct, run)


def frame(ctx, rep, world, new):
    label = "plot_reference_frame(" + ("in the world frame" if world else
                                       "in its own axes") + \
        (", new axes)" if new else ")")

    def fn(J):
        P, f, kw = setup(ctx, "plot_reference_frame", new)
        I = P.I
        fr = ctx.frame("frame")
        kw["arrow_len"] = sym("arrow_len", kind="float", nonnull=True)
        E = Eval(Alg(), {})
        al = E.alg
        ln = al.var("arrow_len")
        E.env[kw["arrow_len"].k] = Arr((), {(): ln})
        E.frame, E.world = fr, sym("world", nonnull=True)
        if world:
            kw["world_frame"] = E.world
        I.decider = still(fr, True)
        hook = pieces(I)
        r = ctx.run(I, f, [fr], kw)
        if r is None or r.op not in ("list", "tuple"):
            J.ob(None, "result", show(r, 3) if r is not None else "raises")
            return
        J.calls = I.calls
        J.setup = dict(P=P, I=I, r=r, hook=hook, al=al, ln=ln)
        todo, k = [{}], 0
        while todo and k < 16:
            d = todo.pop()
            k += 1
            sub = E.fork()
            sub.choose = chooser(fr, E.world, d)
            try:
                shown(J, sub, d)
            except Fork as e:
                todo += [{**d, e.args[0].k: (e.args[0], v)}
                         for v in (True, False)]

    def shown(J, E, d):
        what = J.what
        J.what += "".join(f" where {show(c, 3)} is {v}" for c, v in
                          d.values())
        try:
            inner(J, E)
        finally:
            J.what = what

    def inner(J, E):
        P, I, r, hook, al, ln = (J.setup[x] for x in (
            "P", "I", "r", "hook", "al", "ln"))
        evs = P.replay(E)
        pts = []
        for j in (None, 0, 1, 2):
            v = Arr((3,), {(i,): ln if i == j else al.num(0)
                           for i in range(3)})
            pts.append(moved(al, v) if world else v)
        J.ob(len(r.args) == 3, "three arrows", f"{len(r.args)}")
        arts = [e[2][0].uid for e, _, _ in evs
                if e[0] == "add_artist" and e[2]]
        for i, a in enumerate(r.args[:3]):
            arrow(ctx, J, I, E, hook, a, i, pts, arts)
        receiver(J, evs, new, {"add_artist"})
        limits(J, E, evs, pts=pts)
    go(ctx, rep, label, fn)


class Fork(Exception):
    pass


def chooser(fr, world, known):
    """Cases of conditions on attributes of the frame that are left open."""
    def leaf(x):
        while x.op == "attr":
            x = x.args[0]
        return x.k in (fr.k, world.k) or x.op == "const"

    def f(c):
        if c.k in known:
            return known[c.k][1]
        if not all(leaf(x) for x in c.args) or not any(
                x.op == "attr" and x.meta in (
                    "parent", "root", "name", "depth", "is_root",
                    "translation", "rotation") for x in c.args):
            return None
        raise Fork(c)
    return f


def still(fr, pol):
    def f(c, I):
        if c.op == "isnone" and c.args[0].op == "attr" and c.args[
                0].args[0].k == fr.k and c.args[0].meta == "timestamps":
            return pol
        return None
    return f


def pieces(I):
    """Record what arrows are made of and where they are put on the page."""
    log = {"init": [], "proj": [], "pos": []}

    def init(I, a, k):
        log["init"].append((a, k, I.loc))
        return const(None)

    def proj(I, a, k):
        i = len(log["proj"])
        r = N("tuple", tuple(N("tuple", tuple(
            sym(f"p{i}{c}{j}", kind="float") for j in range(2)))
            for c in SPACE))
        log["proj"].append((a, k, I.loc, r))
        return r

    def pos(I, a, k):
        log["pos"].append((a[1:], k, I.loc))
        return const(None)
    I.extern_hooks["matplotlib.patches.FancyArrowPatch.__init__"] = init
    I.extern_hooks["mpl_toolkits.mplot3d.proj3d.proj_transform"] = proj
    I.method_hooks["set_positions"] = pos
    return log


def arrow(ctx, J, I, E, log, a, i, pts, arts):
    c = SPACE[i]
    if a.op != "inst":
        J.ob(None, f"{c} arrow", show(a, 3))
        return
    J.loc = a.loc
    J.ob(a.uid in arts, f"{c} arrow is added to the axes", "")
    inits = [x for x in log["init"] if x[0] and x[0][0].uid == a.uid]
    if inits:
        col = inits[-1][1].get("color")
        J.ob((col.meta[2] == "rgb"[i]) if col is not None and
             col.op == "const" else None, f"{c} arrow has its colour",
             show(col, 3) if col is not None else "not given")
    for m in ("do_3d_projection", "draw"):
        f = I.class_member(a.meta[0], m)
        if f is None:
            J.ob(None if m == "draw" else False, f"{c} arrow: {m}",
                 "no such method")
            continue
        log["proj"].clear()
        log["pos"].clear()
        ctx.run(I, N("bound", (a, f)), [sym("renderer", nonnull=True)])
        if not log["proj"] or not log["pos"]:
            J.ob(None if m == "draw" or log["pos"] else False,
                 f"{c} arrow: {m} places the arrow", "")
            continue
        (args, _, J.loc, pr), (put, _, loc) = log["proj"][-1], log["pos"][-1]
        for j in range(3):
            want = Arr((2,), {(0,): pts[0].cells[j,],
                              (1,): pts[1 + i].cells[j,]})
            J.arr(E, args[j] if j < len(args) else None, want,
                  f"{c} arrow: {m}: {SPACE[j]} of its ends")
        J.loc = loc
        want = [[pr.args[q].args[e].k for q in (0, 1)] for e in (0, 1)]
        got = [[y.k for y in x.args] if x.op in ("tuple", "list") else None
               for x in put]
        J.ob(got == want if None not in got else None,
             f"{c} arrow: {m}: projected ends", ", ".join(
                 show(x, 3) for x in put))


def moving(ctx, rep):
    construct = "plot_reference_frame(moving frame)"

    def fn(J):
        P, f, kw = setup(ctx, "plot_reference_frame", False)
        fr = ctx.frame("frame")
        P.I.decider = still(fr, False)
        r = ctx.run(P.I, f, [fr], kw)
        hows = {e.how for e in P.I.raises}
        if r is None:
            J.ob(hows == {"NotImplementedError"}, "rejected",
                 ", ".join(sorted(map(str, hows))), "rejects")
        else:
            J.ob(False if not hows else None, "rejected", "accepted",
                 "rejects")
    go(ctx, rep, construct, fn)
