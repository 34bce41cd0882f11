"""C35: iterative closest point: consistent correspondences and a result
that maps the first array onto the second."""
from ..dom.deriv import kwargs
from ..ctx import FALSE, U, const, cval, sym, walk, show

DIR, COR, INIT, STOP = ("direction", "correspondences", "initial guess",
                        "termination")


class Bad(Exception):
    def __init__(self, msg, loc=None):
        self.msg, self.loc = msg, loc


class Gap(Exception):
    pass


# clouds: ("pts", source, moved, rows);  fits: ("fit", from, to)
# parts of a fit: ("t", fit) ("r", fit);  ("half", "r"|"t", fit, cloud)

class Clouds:
    def __init__(self, I, env, init=None):
        self.I, self.env, self.init = I, env, init
        self.memo = {}

    def ev(self, n):
        if n.k not in self.memo:
            try:
                self.memo[n.k] = self._ev(n)
            except (Bad, Gap) as e:
                if isinstance(e, Bad) and e.loc is None:
                    e.loc = n.loc
                self.memo[n.k] = e
        v = self.memo[n.k]
        if isinstance(v, Exception):
            raise v
        return v

    def cloud(self, n):
        v = self.ev(n)
        if v[0] == "half":
            raise Bad(f"{txt(v[3])} are used after only the "
                      f"{'rotation' if v[1] == 'r' else 'translation'} was "
                      "applied", n.loc)
        if v[0] != "pts":
            raise Gap(f"not a set of points: {v}")
        return v

    def join(self, a, b):
        if a == b:
            return a
        if a[0] == b[0] == "pts" and a[1] == b[1] and a[3] == b[3]:
            return ("pts", a[1], "any", a[3])
        raise Gap(f"paths differ: {a} {b}")

    def _ev(self, n):
        if n.k in self.env:
            return self.env[n.k]
        if self.init is not None and n.op == "item" and \
                n.args[0].k == self.init.k and n.args[1].op == "const":
            return ("tr"[cval(n.args[1])], ("fit", "init", None))
        op, a = n.op, n.args
        if op in ("numpy.asarray", "numpy.array", "numpy.copy", "m:copy",
                  "numpy.asanyarray", "numpy.atleast_2d", "m:astype",
                  "numpy.ascontiguousarray"):
            return self.ev(a[0])
        if op in ("numpy.ravel", "m:ravel", "numpy.squeeze", "m:flatten",
                  "m:squeeze", "numpy.reshape", "m:reshape"):
            v = self.ev(a[0])
            return v
        if op == "phi":
            return self.join(self.ev(a[1]), self.ev(a[2]))
        if op == "mu":
            v = self.ev(a[0])
            if v[0] != "pts":
                raise Gap("loop variable")
            return ("pts", v[1], "any", v[3])
        if op == "loop":
            i, b = self.ev(a[1]), self.ev(a[3])
            return self.join(i, b)
        if op in ("scipy.spatial.cKDTree", "scipy.spatial.KDTree"):
            return ("tree", self.cloud(a[0]))
        if op in ("numpy.sort", "builtins.sorted", "numpy.unique",
                  "numpy.flip", "builtins.reversed"):
            v = self.ev(a[0])
            if v[0] == "idx":
                raise Bad("the positions of the neighbours are reordered")
            raise Gap(op)
        if op == "m:query":
            t = self.ev(a[0])
            if t[0] != "tree":
                raise Gap("query")
            self.options(n)
            return ("query", t[1], self.cloud(a[1]))
        if op == "item":
            v = self.ev(a[0])
            if v[0] == "query" and a[1].op == "const":
                return (("dist", "idx")[cval(a[1])],) + v[1:]
            if v[0] == "fit" and a[1].op == "const":
                return ("tr"[cval(a[1])], v)
            return self.chosen(v, a[1])
        if op in ("numpy.take", "m:take"):
            kw = kwargs(n, ("a", "indices", "axis"))
            if kw.get("axis") is None or kw["axis"].op != "const":
                raise Gap(op)
            if cval(kw["axis"]) not in (0, -2):
                raise Bad("columns of points are selected by positions of "
                          "points")
            return self.chosen(self.ev(kw["a"]), kw["indices"])
        if op == "op:fit":
            x, y = self.cloud(a[0]), self.cloud(a[1])
            self.rows(x, y)
            return ("fit", x, y)
        if op == "op:rotate":
            r, x = self.ev(a[0]), self.ev(a[1])
            if r[0] == "t":
                raise Bad("points are rotated by a translation")
            if r[0] != "r":
                raise Gap("rotation")
            if x[0] == "half" and x[1] == "t":
                raise Bad("the translation is applied before the rotation")
            if x[0] != "pts":
                raise Gap("rotated value")
            self.applies(r[1], x)
            return ("half", "r", r[1], x)
        if op == "binop" and n.meta == "+":
            x, y = self.ev(a[0]), self.ev(a[1])
            if y[0] in ("half", "pts"):
                x, y = y, x
            if x[0] == "half" and y[0] in "tr" and len(y) == 2:
                if y[0] == "r":
                    raise Bad("a rotation is added to points")
                if y[1] != x[2]:
                    raise Bad("rotation and translation are of different "
                              "transforms")
                c = x[3]
                return ("pts", c[1], "init" if y[1][1] == "init" else "any",
                        c[3])
            if x[0] == "pts" and y[0] == "t":
                return ("half", "t", y[1], x)
            raise Gap("sum")
        raise Gap(op)

    def chosen(self, v, where):
        """Rows of an array of points."""
        if v[0] != "pts":
            raise Gap("item")
        i = self.ev(where)
        if i[0] == "dist":
            raise Bad("points are selected by distances")
        if i[0] != "idx":
            raise Gap("selection of points")
        if i[1][:2] != v[:2]:
            raise Bad(f"points of {v[1]} selected by positions among the "
                      f"points of {i[1][1]}")
        return ("pts", v[1], v[2], ("nearest", i[2]))

    def options(self, n):
        """The search is for the nearest neighbour of every point."""
        kw = kwargs(n, ("self", "x", "k", "eps", "p",
                        "distance_upper_bound"))
        for o, good in (("k", (1,)), ("eps", (0,)), ("p", (2,)),
                        ("distance_upper_bound", (float("inf"),))):
            v = kw.get(o)
            if v is None or v.op == "extern" and v.meta in (
                    "numpy.inf", "math.inf"):
                continue
            if v.op in ("list", "tuple") and len(v.args) == 1:
                v = v.args[0]
            if v.op != "const":
                raise Gap(f"option {o} of the search is {show(v)}")
            if cval(v) not in good:
                raise Bad(f"the search with {o}={cval(v)} does not find the "
                          "nearest neighbour of every point")

    def applies(self, fit, x):
        f = fit[1]
        if f == "init":
            if x[1] != "v1":
                raise Bad("the initial guess is applied to the second array")
            return
        if f[1:3] != x[1:3]:
            raise Bad(f"a transform of {txt(f)} is applied to {txt(x)}")

    def rows(self, x, y):
        """The i-th rows correspond."""
        def own(c):
            return c[3] if c[3][0] == "nearest" else ("own", c[1])
        a, b = own(x), own(y)
        if a == b:
            return
        for p, q in ((a, y), (b, x)):
            if p[0] == "nearest":
                if p[1][:3] == q[:3] and q[3][0] == "own":
                    return
                raise Bad(f"points nearest to {txt(p[1])} are paired with "
                          f"{txt(q)}")
        raise Bad(f"{txt(x)} and {txt(y)} are paired row by row without "
                  "correspondence")


def txt(c):
    if not isinstance(c, tuple):
        return str(c)
    how = {"id": "the points of", "init": "the initially moved points of",
           "any": "the moved points of"}[c[2]]
    return f"{how} {c[1]}"


def check(ctx, rep):
    rep.rule(DIR, "the returned translation and rotation are those of one "
                  "best fit from the unmoved first array")
    rep.rule(COR, "every best fit pairs rows that correspond: the same "
                  "points, or points and their nearest neighbours, and every "
                  "transform is applied to the points it was fitted to, "
                  "rotation first; no fitted step is left out on the "
                  "way to the result")
    rep.rule(INIT, "with an initial guess the iteration starts at the first "
                   "array moved by it, without one at the first array")
    rep.rule(STOP, "at most max_iterations iterations, stopped early only "
                   "when a change is below the tolerance")
    for unroll in (None, 1, 2, 20):
        for init in (False, True):
            case(ctx, rep, unroll, init)
    termination(ctx, rep)


def setup(ctx, unroll, init):
    I = ctx.rot_interp()
    I.overrides["rigid_body_motion.utils.is_dataarray"] = \
        lambda I, a, k: FALSE

    def fit(I, a, k):
        a = list(a) + [k[x] for x in ("v1", "v2")[len(a):]]
        return I.mk("op:fit", tuple(a[:2]))
    I.overrides["rigid_body_motion.estimators.best_fit_transform"] = fit
    v1 = sym("v1", kind="ndarray", nonnull=True)
    v2 = sym("v2", kind="ndarray", nonnull=True)
    kw = {"max_iterations": sym("max_iterations", kind="int", nonnull=True)
          if unroll is None else const(unroll)}
    g = sym("init", nonnull=True)
    if init:
        kw["init_transform"] = g
    env = {}
    for s, nm in ((v1, "v1"), (v2, "v2")):
        env[s.k] = ("pts", nm, "id", ("own", nm))
    r = ctx.run(I, ctx.public(I, "iterative_closest_point"), [v1, v2], kw)
    C = Clouds(I, env, g if init else None)
    # flattened arrays stand for the arrays
    for n in walk(r) if r is not None else ():
        if n.op in ("numpy.reshape", "m:reshape") and n.k not in env:
            base = n
            while base.op in ("numpy.reshape", "m:reshape",
                              "numpy.swapaxes", "numpy.moveaxis",
                              "numpy.asarray"):
                base = base.args[0]
            if base.k in env:
                env[n.k] = env[base.k]
    return I, r, C, kw


def case(ctx, rep, unroll, init):
    con = "iterative_closest_point(" + ", ".join(
        (["init_transform=..."] if init else []) +
        ([f"max_iterations={unroll}"] if unroll is not None else [])) + ")"
    box = []

    def go():
        I, r, C, kw = setup(ctx, unroll, init)
        if r is None:
            rep.bad(DIR, con, "every path raises")
            return
        box[:] = I, C
        parts = [I.cur(I.getitem(r, const(i))) for i in range(2)]
        for pol in (1, 2):
            alt = [x.args[pol] if x.op == "phi" and size(x.args[0]) else x
                   for x in parts]
            if pol == 1 or alt[0] is not parts[0]:
                judge(alt)

    def judge(parts):
        r = parts[0]
        I, C = box
        try:
            t, q = C.ev(parts[0]), C.ev(parts[1])
            if t[0] != "t" or q[0] != "r":
                raise Bad("translation and rotation are exchanged"
                          if (t[0], q[0]) == ("r", "t") else
                          f"returns {t[0]}, {q[0]}")
            if t[1] != q[1]:
                raise Bad("translation and rotation are of different fits")
            rep.ok(COR, con, "all pairs correspond", r.loc)
            f, to = t[1][1:]
            if f == "init":
                rep.bad(DIR, con, "returns the initial guess", r.loc)
            else:
                ok = f[1] == "v1" and f[2] == "id"
                rep.check(ok, DIR, con, f"fitted from {txt(f)}",
                          parts[0].loc)
                if unroll == 1:
                    rep.check(to[1] == "v2" or to[2] == "any", DIR, con +
                              " target", f"fitted to {txt(to)}",
                              parts[0].loc)
        except Bad as e:
            rep.bad(COR, con, e.msg, e.loc)
            return
        except Gap as e:
            rep.unknown(COR, con, str(e))
            return
        if unroll == 1:
            applied(parts)
        start(rep, con, C, parts, init, unroll)

    def applied(parts):
        """On no way out is the fitted step left out."""
        def leaves(n):
            return leaves(n.args[1]) + leaves(n.args[2]) \
                if n.op == "phi" else [n]
        for fit in [n for p in parts for n in walk(p)
                    if n.op == "op:fit"]:
            try:
                f = box[1].cloud(fit.args[0])
                tos = [(x, box[1].cloud(x)) for x in leaves(fit.args[1])]
            except (Bad, Gap):
                continue
            if f[1:3] == ("v1", "id") and len(tos) > 1:
                for x, c in tos:
                    rep.check(c[1] != "v1" or c[2] == "any", COR, con +
                              " step", "every fitted step is applied"
                              if c[2] == "any" else "the last fitted step is "
                              f"not applied: fitted to {txt(c)}", fit.loc)
    ctx.guarded(COR, con, go)


def size(c):
    """Whether a condition is true and false for enough points."""
    while c.op == "not":
        c = c.args[0]
    if c.op != "cmp":
        return False
    a, b = c.args
    if a.op == "const":
        a, b = b, a
    if b.op != "const" or type(cval(b)) is not int or cval(b) < 3:
        return False
    return a.op == "builtins.len" or a.op == "item" and \
        a.args[0].op == "attr" and a.args[0].meta == "shape"


def start(rep, con, C, parts, init, unroll):
    """Where the iteration starts."""
    qs = [n for p in parts for n in walk(p) if n.op == "m:query"]
    clouds = []
    for q in qs:
        for x in (q.args[1], q.args[0].args[0]):
            try:
                later = C.ev(x) if x.op == "mu" else None
                c = C.ev(x.args[0] if x.op == "mu" else x)
            except (Bad, Gap):
                continue
            if c[1] == "v1":
                clouds.append(c[2])
                if later is not None:
                    clouds.append("any")
    if not clouds:
        rep.unknown(INIT, con, "no search for neighbours found")
        return
    want = "init" if init else "id"
    rep.check(want in clouds, INIT, con,
              f"the searches use {sorted(set(clouds))}")
    if unroll == 2:
        rep.check("any" in clouds, COR, con + " progress", "the second "
                  f"search uses the moved points: {sorted(set(clouds))}")


def termination(ctx, rep):
    con = "iterative_closest_point(tolerance=..., max_iterations=...)"

    def go():
        I = ctx.rot_interp()
        I.overrides["rigid_body_motion.utils.is_dataarray"] = \
            lambda I, a, k: FALSE
        I.overrides["rigid_body_motion.estimators.best_fit_transform"] = \
            lambda I, a, k: I.mk("op:fit", tuple(a[:2]))
        tol = sym("tolerance", kind="float", nonnull=True)
        mi = sym("max_iterations", kind="int", nonnull=True)
        r = ctx.run(I, ctx.public(I, "iterative_closest_point"), [
            sym("v1", kind="ndarray", nonnull=True),
            sym("v2", kind="ndarray", nonnull=True)],
            {"tolerance": tol, "max_iterations": mi})
        its = [x for x in walk(r) if x.op in ("loop", "brk") and
               any(y.k == mi.k for y in walk(x.args[0]))]
        for x in its:
            it = x.args[0]
            while it.op in ("builtins.enumerate", "builtins.list",
                            "builtins.iter", "builtins.reversed"):
                it = it.args[0]
            for y in walk(it):
                if y.op in ("builtins.max", "builtins.min", "builtins.int",
                            "builtins.round") and len(y.args) > 1 and \
                        any(z.k == mi.k for z in y.args) and \
                        any(z.op == "const" for z in y.args) and \
                        moderate(y):
                    rep.bad(STOP, con + " bound", "the number of iterations "
                            f"is {show(y)}", y.loc)
        used = any(y.k == mi.k or y.op == "while" for y in walk(r)) or any(
            y.k == mi.k for pc, _ in I.breaks for c, _ in pc
            for y in walk(c))
        rep.check(True if its else None if used else False, STOP,
                  con + " iterations",
                  "the loop runs over max_iterations" if its else
                  "no loop over max_iterations found")
        def has(x):
            return any(y.k == tol.k for y in walk(x))
        olds = []
        for pc, loc in I.breaks:
            hit = [(c, p) for c, p in pc if has(c)]
            if not hit:
                continue
            c, pol = hit[-1]        # earlier ones are of other iterations
            while c.op == "not":
                c, pol = c.args[0], not pol
            judge_stop(rep, con + " tolerance", c, pol, tol, loc, olds)
        if not olds:
            rep.unknown(STOP, con + " tolerance",
                        "no break depends on the tolerance")
        elif all(x.op == "const" for x in olds):
            rep.bad(STOP, con + " change", "the error is always compared "
                    f"with {show(olds[0])}")
        else:
            rep.ok(STOP, con + " change", "compared with the error of the "
                   "previous iteration")
    ctx.guarded(STOP, con, go)


def moderate(y):
    """max/min of a count with a constant that changes some count >= 0."""
    c = [cval(z) for z in y.args if z.op == "const"]
    return y.op == "builtins.min" or any(
        type(v) in (int, float) and v > 0 for v in c)


def judge_stop(rep, con, c, pol, tol, loc, olds):
    txt_ = f"stops when {show(c)[:100]} is {pol}"
    if c.op != "cmp" or c.meta not in ("<", "<="):
        rep.unknown(STOP, con, txt_, loc)
        return
    a, b = c.args
    small = a if b.k == tol.k else b if a.k == tol.k else None
    if small is None:
        rep.unknown(STOP, con, txt_, loc)
        return
    if (b.k == tol.k) != pol:
        rep.bad(STOP, con, txt_ + ", i.e. when the change exceeds the "
                "tolerance", loc)
        return
    absolute = small.op in ("numpy.abs", "builtins.abs", "numpy.fabs",
                            "numpy.absolute", "numpy.linalg.norm")
    d = small.args[0] if absolute else small
    if d.op == "binop" and d.meta == "-":
        olds.append(next((x for x in d.args if x.op in ("const", "mu")),
                         d.args[0]))
        first = d.args[0]
        if not absolute and first.op == "const" and cval(first) == 0:
            rep.bad(STOP, con, txt_ + ": the first change is never positive",
                    loc)
            return
        rep.check(True if absolute else None, STOP, con, txt_, loc)
    elif not any(x.op in ("binop", "numpy.diff", "numpy.subtract")
                 for x in walk(small) if x.op != "mu"
                 ) and "mean" in " ".join(x.op for x in walk(small)):
        rep.bad(STOP, con, txt_ + ": no change of the error is compared",
                loc)
    else:
        rep.unknown(STOP, con, txt_, loc)
