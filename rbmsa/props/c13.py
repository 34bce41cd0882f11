"""C13: contradictory or ill-shaped arguments are rejected."""
from ..ctx import FALSE, NONE, TRUE, N, const, cval, sym
from ..dom.algebra import Alg
from ..dom.arrays import Arr
from . import formula as F_

RULE = "rejects"
TEXT = ("under the assumed shapes and options the branch conditions lead "
        "every path to a raise statement of the specified exception type "
        "before a value is returned")
KEEP = "accepts"
KTEXT = ("under the assumed valid shapes and options no raise statement is "
         "certainly reached")


class Case:
    """One abstract call: shapes of array arguments plus other arguments."""

    def __init__(self, ctx, rep, con, get, pos=(), arrs=None, kw=None,
                 prep=None, make=None):
        self.ctx, self.rep, self.con = ctx, rep, con
        self.get, self.pos, self.arrs = get, pos, arrs or {}
        self.kw, self.prep = kw or {}, prep
        self.make = make or ctx.interp

    def run(self, lens):
        ctx = self.ctx
        I = self.make()
        alg = Alg()
        env, args = {}, {}
        for nm, ax in self.arrs.items():
            s = sym(nm, kind="ndarray", nonnull=True)
            quat = bool(ax) and ax[-1] == "q!"
            env[s.k] = F_.sym_array(alg, nm, ax[:-1] if quat else ax, quat)
            args[nm] = s
        f = self.get(I)
        if self.prep:
            self.prep(I)
        n0 = len(I.raises)
        pos = [self.node(I, x, args) for x in self.pos]
        kw = {k: self.node(I, v, args) for k, v in self.kw.items()}
        used = {x for x in self.pos if isinstance(x, str) and x[:1] == "$"}
        used |= {v for v in self.kw.values()
                 if isinstance(v, str) and v[:1] == "$"}
        for nm in args:
            if "$" + nm not in used:
                kw[nm] = args[nm]
        r = ctx.run(I, f, pos, kw)
        E = F_.ArrayEval(alg, env)
        E.lens.update(lens)
        I.raises = I.raises[n0:]
        return I, E, r

    def node(self, I, v, args):
        if isinstance(v, str) and v[:1] == "$":
            return args[v[1:]]
        if callable(v):
            v = v(I)
        return v if isinstance(v, N) else const(v)

    def orders(self):
        return F_.orders(self.arrs)


def at(I, exc):
    return {str(x.loc) for x in I.raises if x.how in exc}


def reached(I, E):
    """(status, effect): True certain raise, None possible, False none."""
    ra = F_.taken(I, E)
    if ra is F_.MAYBE:
        return None, None
    return ra is not None, ra


def either(I, E, exc):
    """A raise that is reached unless an earlier raise of the type is."""
    for e in I.raises:
        if e.how not in exc:
            continue
        open_ = []
        for c, pol in e.pc:
            t = E.truthy(c)
            if t is None:
                open_.append((c.k, pol))
            elif t != pol:
                break
        else:
            if all(any(x.how in exc and x.pc and
                       (x.pc[-1][0].k, not x.pc[-1][1]) == o and
                       all(E.truthy(c) == pol for c, pol in x.pc[:-1])
                       for x in I.raises) for o in open_):
                return e
    return None


def rejects(c, exc, rule=RULE, valid=None):
    """`valid`: the same call without the contradiction."""
    rep = c.rep
    for lens in c.orders():
        con = c.con + (" [" + "<".join(sorted(lens, key=lens.get)) + "]"
                       if len(lens) > 1 else "")

        def go():
            I, E, r = c.run(lens)
            st, e = reached(I, E)
            if st:
                rep.check(e.how in exc, rule, con, f"raises {e.how}", e.loc)
                return
            e = either(I, E, exc)
            if e is not None:
                rep.ok(rule, con, f"raises {e.how} at this statement or an "
                       "earlier one", e.loc)
                return
            hows = {x.how for x in I.raises}
            if r is None and hows and hows <= set(exc):
                rep.ok(rule, con, f"every path raises {sorted(hows)}",
                       I.raises[0].loc)
                return
            if r is None:
                rep.unknown(rule, con, f"raises {sorted(map(str, hows))} on "
                            "undecided paths")
                return
            if st is False:
                # no raise statement applies: a library call may still fail
                v = E.ev(r)
                if isinstance(v, F_.Err):
                    if "do not broadcast" in v.msg and "ValueError" in exc:
                        rep.ok(rule, con, f"raises ValueError: {v.msg}",
                               v.loc)
                    else:
                        rep.unknown(rule, con, f"fails: {v.msg}", v.loc)
                else:
                    rep.bad(rule, con, "accepted: no raise statement applies",
                            r.loc)
                return
            # conditions left open: is any raise of the type guarded at all?
            if not any(x.how in exc for x in I.raises):
                rep.bad(rule, con, f"no path raises {'/'.join(exc)}", r.loc)
            elif valid is not None and at(I, exc) <= at(
                    valid.run(lens)[0], exc):
                rep.bad(rule, con, "only rejected where the call is without "
                        "the contradiction", r.loc)
            else:
                rep.unknown(rule, con, "branch conditions not decided")
        c.ctx.guarded(rule, con, go)


def accepts(c, rule=KEEP):
    rep = c.rep
    for lens in c.orders():
        con = c.con + (" [" + "<".join(sorted(lens, key=lens.get)) + "]"
                       if len(lens) > 1 else "")

        def go():
            I, E, r = c.run(lens)
            st, e = reached(I, E)
            if st:
                rep.bad(rule, con, f"raises {e.how}", e.loc)
            elif r is None:
                rep.bad(rule, con, "every path raises "
                        f"{sorted({str(x.how) for x in I.raises})}",
                        I.raises[-1].loc if I.raises else None)
            else:
                rep.ok(rule, con, "no raise statement applies" if st is False
                       else "no raise statement certainly applies")
        c.ctx.guarded(rule, con, go)


def check(ctx, rep):
    rep.rule(RULE, TEXT)
    rep.rule(KEEP, KTEXT)

    def par(I):
        return ctx.frame("par")

    def cls(I):
        return ctx.at(I, "reference_frames", "ReferenceFrame")
    V = ("ValueError",)

    def makers():
        yield "ReferenceFrame", cls, ["x"], True
        yield "register_frame", lambda I: ctx.public(I, "register_frame"), \
            ["x"], True
    for nm, get, pos, _ in makers():
        for what, ax in (("translation", (3,)), ("rotation", (4,)),
                         ("timestamps", ("t",))):
            rejects(Case(ctx, rep, f"{nm}: root with {what}", get, pos,
                         {what: ax}), V)
        rejects(Case(ctx, rep, f"{nm}: discrete root", get, pos, {},
                     {"discrete": True}), V)
        rejects(Case(ctx, rep, f"{nm}: discrete without timestamps", get, pos,
                     {"translation": (3,), "rotation": (4,)},
                     {"parent": par, "discrete": True}), V)
        rejects(Case(ctx, rep, f"{nm}: discrete without arrays", get, pos, {},
                     {"parent": par, "discrete": True}), V)
        bad = [
            {"translation": ("n", 3)}, {"translation": (4,)},
            {"translation": (2,)}, {"translation": (1, 3)},
            {"rotation": ("n", 4)}, {"rotation": (3,)},
            {"rotation": (1, 4)}, {"rotation": (3, 3)},
            {"translation": (3,), "timestamps": ("t",)},
            {"rotation": (4,), "timestamps": ("t",)},
            {"translation": ("t", 3), "rotation": (4,),
             "timestamps": ("t",)},
            {"translation": (3,), "rotation": ("t", 4),
             "timestamps": ("t",)},
            {"translation": ("n", 3), "timestamps": ("t",)},
            {"rotation": ("n", 4), "timestamps": ("t",)},
            {"translation": ("n", 3), "rotation": ("t", 4),
             "timestamps": ("t",)},
            {"translation": (3, "t"), "timestamps": ("t",)},
            {"rotation": (4, "t"), "timestamps": ("t",)},
            {"translation": ("t", 4), "timestamps": ("t",)},
            {"rotation": ("t", 3), "timestamps": ("t",)},
            {"translation": ("t", "n", 3), "timestamps": ("t",)},
            {"timestamps": ("t", 1)}, {"timestamps": ("t", "n")},
            {"translation": ("t", 3), "rotation": ("t", 4),
             "timestamps": ("t", 1)}]
        for sh in bad:
            for kw in ({}, {"inverse": True}, {"discrete": True}):
                if "discrete" in kw and "timestamps" not in sh:
                    continue
                rejects(Case(ctx, rep, f"{nm}: shapes {F_.label_shapes(sh)}"
                             + "".join(" " + k for k in kw), get, pos, sh,
                             dict(kw, parent=par)), V)
        good = [{}, {"translation": (3,)}, {"rotation": (4,)},
                {"translation": (3,), "rotation": (4,)},
                {"timestamps": ("t",)},
                {"translation": ("t", 3), "timestamps": ("t",)},
                {"rotation": ("t", 4), "timestamps": ("t",)},
                {"translation": ("t", 3), "rotation": ("t", 4),
                 "timestamps": ("t",)}]
        for sh in good:
            for kw in ({}, {"inverse": True}, {"discrete": True}):
                if "discrete" in kw and "timestamps" not in sh:
                    continue
                accepts(Case(ctx, rep, f"{nm}: shapes {F_.label_shapes(sh)}"
                             f" {kw}", get, pos, sh,
                             dict(kw, parent=par)))
    for sh in ((3,), (4, 4), ("n", 3, 3), (3, 4), (2, 3)):
        rejects(Case(ctx, rep, f"from_rotation_matrix: {list(sh)}",
                     lambda I: I.getattr(cls(I), "from_rotation_matrix"), [],
                     {"mat": sh}, {"parent": par}), V)
    accepts(Case(ctx, rep, "from_rotation_matrix: [3, 3]",
                 lambda I: I.getattr(cls(I), "from_rotation_matrix"), [],
                 {"mat": (3, 3)}, {"parent": par}))
    methods(ctx, rep)
    options(ctx, rep)
    labelled(ctx, rep)
    estimators(ctx, rep)
    order(ctx, rep)


KINDS = [("transform_points", 3), ("transform_vectors", 3),
         ("transform_quaternions", 4), ("transform_angular_velocity", 3),
         ("transform_linear_velocity", 3)]
WHATS = ("reference_frame", "moving_frame", "representation_frame")


def methods(ctx, rep):
    V = ("ValueError",)

    def self_(I):
        return ctx.frame("self")

    def to(I):
        return ctx.frame("to")

    for nm, k in KINDS:
        for w in (WHATS if "velocity" in nm else (None,)):
            for top in (False, True):
                kw = {"what": w} if w else {}
                if "linear" in nm:
                    kw.update(moving_frame=lambda I: ctx.frame("mov"),
                              reference_frame=lambda I: ctx.frame("ref"))
                if top:
                    kw.update(into=to, outof=self_, return_timestamps=True)
                    if "velocity" in nm:
                        kw.update(cutoff=0.25)

                    def get(I, nm=nm):
                        return ctx.public(I, nm)
                    pos = ["$arr"]
                else:
                    def get(I, nm=nm):
                        return I.getattr(ctx.frame("self"), nm)
                    pos = ["$arr", to]
                lab = nm + (f"[{w}]" if w else "") + \
                    (" function" if top else "")
                o = 4 if k == 3 else 3
                T = {"timestamps": ("t",)}
                shapes = [
                    ({"arr": (o,)}, {}), ({"arr": ("n", o)}, {}),
                    ({"arr": (2,)}, {}), ({"arr": (1,)}, {}),
                    ({"arr": (k, "n")}, {"axis": 1}),
                    ({"arr": ("n", k)}, {"axis": 0}),
                    ({"arr": ("t", o), **T}, {}),
                    ({"arr": ("n", k), **T}, {}),
                    ({"arr": (1, k), **T}, {}),
                    ({"arr": (k, 1), **T}, {"axis": 0, "time_axis": 1}),
                    ({"arr": ("t", k), "timestamps": (1,)}, {}),
                    ({"arr": ("t", k), **T}, {"axis": 1, "time_axis": 1}),
                    ({"arr": ("n", "t", k), **T}, {}),
                    ({"arr": ("t", "n", k), **T}, {"time_axis": 1}),
                    ({"arr": ("t", k), "timestamps": ("t", 1)}, {}),
                    ({"arr": ("t", k), "timestamps": ("t", "n")}, {}),
                ]
                for sh, kk in shapes:
                    rejects(Case(ctx, rep, f"{lab}: {F_.label_shapes(sh)} "
                                 f"{kk or ''}", get, pos, sh, {**kw, **kk},
                                 make=lambda: quiet(ctx)), V)
                for sh, kk in (({"arr": (k,)}, {}), ({"arr": ("n", k)}, {}),
                               ({"arr": (k, "n")}, {"axis": 0}),
                               ({"arr": ("t", k), **T}, {}),
                               ({"arr": (k, "t"), **T},
                                {"axis": 0, "time_axis": 1}),
                               ({"arr": ("n", "t", k), **T},
                                {"time_axis": 1})):
                    accepts(Case(ctx, rep, f"{lab}: {F_.label_shapes(sh)} "
                                 f"{kk or ''}", get, pos, sh, {**kw, **kk},
                                 make=lambda: quiet(ctx)))


def quiet(ctx):
    """Interpreter in which matching and lookups are opaque."""
    I = ctx.rot_interp()
    M = ctx.p.classes.get("rigid_body_motion.core.TransformMatcher")
    for n, k in (("get_transformation", 3), ("get_arrays", None)):
        if M is not None:
            I.overrides[f"{M.qualname}.{n}"] = lambda I, a, k, n=n: I.mk(
                "opq:" + n, (a[0],))
    R = ctx.C.qualname + "."
    for n, k in (("lookup_transform", 3), ("lookup_twist", 3),
                 ("lookup_linear_velocity", 2),
                 ("lookup_angular_velocity", 2)):
        I.overrides[R + n] = lambda I, a, kw, k=k: I.mk(
            "tuple", tuple(sym(f"opq{i}", nonnull=True, kind="ndarray")
                           for i in range(k)))
    return I


def options(ctx, rep):
    V = ("ValueError",)

    def to(I):
        return ctx.frame("to")
    for nm in ("transform_angular_velocity", "transform_linear_velocity"):
        for w in ("velocity", "", "reference", "Moving_frame"):
            kw = {"what": w}
            if "linear" in nm:
                kw.update(moving_frame=to, reference_frame=to)
            rejects(Case(ctx, rep, f"{nm}: what={w!r}",
                         lambda I, nm=nm: I.getattr(ctx.frame("self"), nm),
                         ["$arr", to], {"arr": (3,)}, kw,
                         make=lambda: quiet(ctx)), V)
            rejects(Case(ctx, rep, f"{nm} function: what={w!r}",
                         lambda I, nm=nm: ctx.public(I, nm),
                         ["$arr"], {"arr": (3,)}, dict(
                             kw, into=to, outof=lambda I: ctx.frame("self")),
                         make=lambda: quiet(ctx)), V)
    for nm, k in KINDS:
        def noout(I, nm=nm):
            return ctx.public(I, nm)
        rejects(Case(ctx, rep, f"{nm} function: array without outof", noout,
                     ["$arr"], {"arr": (k,)}, {"into": to},
                     make=lambda: quiet(ctx)), V)
    for w in ("angular", "foo"):
        rejects(Case(ctx, rep, f"estimate_angular_velocity: mode={w!r}",
                     lambda I: ctx.public(I, "estimate_angular_velocity"), [],
                     {"arr": ("t", 4), "timestamps": ("t",)}, {"mode": w}), V)
    static(ctx, rep)


def static(ctx, rep):
    """Velocities of a static relation, and of a root without reference."""
    V = ("ValueError",)
    for nm in ("lookup_twist", "lookup_linear_velocity",
               "lookup_angular_velocity"):
        def still():
            I = ctx.rot_interp()
            I.overrides[ctx.C.qualname + ".lookup_transform"] = \
                lambda I, a, k: I.mk("tuple", (
                    sym("t", kind="ndarray", nonnull=True),
                    sym("r", kind="ndarray", nonnull=True), NONE))
            return I

        def root(I):
            I._fact(I.isnone(I.getattr(ctx.frame("self"), "parent")), True)

        def get(I, nm=nm):
            return I.getattr(ctx.frame("self"), nm)

        def fn(I, nm=nm):
            return ctx.public(I, nm)

        def ref(I):
            return ctx.frame("ref")
        for kw in ({}, {"allow_static": False}, {"return_timestamps": True},
                   {"cutoff": 0.25, "outlier_thresh": 1.0},
                   {"cutoff": 0.25, "return_timestamps": True}):
            rejects(Case(ctx, rep, f"{nm}: static {kw}", get, [],
                         {}, dict(kw, reference=ref, represent_in=ref),
                         make=still), V)
        rejects(Case(ctx, rep, f"{nm} function: static", fn, [],
                     {}, {"frame": lambda I: ctx.frame("self"),
                          "reference": ref, "represent_in": ref},
                     make=still), V)
        accepts(Case(ctx, rep, f"{nm}: static, allow_static", get, [], {},
                     {"reference": ref, "represent_in": ref,
                      "allow_static": True}, make=still))
        rejects(Case(ctx, rep, f"{nm}: root without reference", get, [], {},
                     {}, prep=root, make=still), V)


def labelled(ctx, rep):
    """dim, axis and timestamps of labelled and plain arrays."""
    V = ("ValueError",)

    def fr(I):
        return ctx.frame("f")
    fns = [(nm, {"into": fr, "outof": fr}, k) for nm, k in KINDS] + [
        ("estimate_linear_velocity", {}, 3),
        ("estimate_angular_velocity", {}, 4),
        ("transform_coordinates", {"into": "polar", "outof": "cartesian"}, 2)]
    for nm, kw, k in fns:
        def get(I, nm=nm):
            return ctx.public(I, nm)
        if "linear" in nm and "transform" in nm:
            kw = dict(kw, moving_frame=fr, reference_frame=fr)
        a = {"arr": ("t", k)}
        if nm.startswith("estimate"):
            a["timestamps"] = ("t",)
        rejects(Case(ctx, rep, f"{nm}: dim with a plain array", get,
                     ["$arr"], a, dict(kw, dim="cartesian_axis"),
                     make=lambda: quiet(ctx)), V)
        if nm == "transform_coordinates":
            continue
        for ax, tx in ((0, 0), (-1, 1), (1, -1), (-2, 0), (1, 1), (0, -2)):
            sh = {"arr": ("t", "t"), "timestamps": ("t",)}
            sh["arr"] = (k, k)
            sh["timestamps"] = (k,)
            rejects(Case(ctx, rep, f"{nm}: axis {ax} is time axis {tx}", get,
                         ["$arr"], sh, dict(kw, axis=ax, time_axis=tx),
                         make=lambda: quiet(ctx)), V)
        def lab(I):
            return sym("da", kind="DataArray", nonnull=True)
        kw2 = {x: v for x, v in kw.items()}
        for ax in (-1, 0, 1):
            rejects(Case(ctx, rep, f"{nm}: dim and axis={ax}", get, [lab],
                         {}, dict(kw2, dim="cartesian_axis", axis=ax),
                         make=lambda: da_interp(ctx)), V,
                    valid=Case(ctx, rep, nm, get, [lab], {},
                               dict(kw2, dim="cartesian_axis"),
                               make=lambda: da_interp(ctx)))

        def stamped(I):
            return sym("stamps", kind="ndarray", nonnull=True)
        rejects(Case(ctx, rep, f"{nm}: labelled array with stamps", get,
                     [lab], {}, dict(kw2, timestamps=stamped),
                     make=lambda: da_interp(ctx)), V + (
                         "NotImplementedError", "TypeError"),
                valid=Case(ctx, rep, nm, get, [lab], {},
                           dict(kw2), make=lambda: da_interp(ctx)))


def da_interp(ctx):
    I = quiet(ctx)
    I.overrides["rigid_body_motion.utils.is_dataarray"] = \
        lambda I, a, k: TRUE if a[0].op == "in" else FALSE
    return I


def estimators(ctx, rep):
    V = ("ValueError",)
    for nm in ("best_fit_rotation", "best_fit_transform",
               "iterative_closest_point"):
        def get(I, nm=nm):
            return ctx.public(I, nm)
        for v1, v2, kw in (((("n", 4), ("n", 4), {})),
                           (("n", 3), ("n", 2), {}),
                           (("n", 2), ("n", 3), {}),
                           ((3,), (3,), {}),
                           ((3, "n"), (3, "n"), {})):
            rejects(Case(ctx, rep, f"{nm}: v1 {list(v1)} v2 {list(v2)}", get,
                         ["$v1", "$v2"], {"v1": v1, "v2": v2}, kw), V)
        if nm != "iterative_closest_point":
            rejects(Case(ctx, rep, f"{nm}: different lengths", get,
                         ["$v1", "$v2"], {"v1": ("n", 3), "v2": ("m", 3)}),
                    V)
        else:
            accepts(Case(ctx, rep, f"{nm}: different lengths", get,
                         ["$v1", "$v2"], {"v1": ("n", 3), "v2": ("m", 3)}))
        accepts(Case(ctx, rep, f"{nm}: same shape", get, ["$v1", "$v2"],
                     {"v1": ("n", 3), "v2": ("n", 3)}))


SIGNS = {"strictly increasing": {1}, "with ties": {0, 1},
         "with a step back": {-1, 1}, "decreasing": {-1}}
IDENT = {"numpy.asarray", "numpy.array", "numpy.asanyarray", "m:astype",
         "m:copy", "m:view", "numpy.ravel", "m:ravel"}


class Order:
    """Truth of conditions on the order of one sequence of stamps."""

    def __init__(self, key, signs):
        self.key, self.signs = key, signs

    def is_t(self, n):
        while True:
            if n.k == self.key:
                return True
            if n.op == "phi":
                return self.is_t(n.args[1]) and self.is_t(n.args[2])
            nm = self.name(n)
            if nm in IDENT and n.args:
                n = n.args[0]
                continue
            return False

    @staticmethod
    def name(n):
        return n.op

    def steps(self, n):
        """Signs of the consecutive differences, or None."""
        nm = self.name(n)
        if nm in IDENT and n.args:
            return self.steps(n.args[0])
        if nm == "numpy.diff" and self.is_t(n.args[0]):
            return set(self.signs)
        if nm in ("sub", "bin") and len(n.args) == 2:
            return self.shift(*n.args)
        return None

    def shift(self, a, b):
        """Signs of a - b for one-off slices of the stamps."""
        pa, pb = self.part(a), self.part(b)
        if (pa, pb) == ("tail", "head"):
            return set(self.signs)
        if (pa, pb) == ("head", "tail"):
            return {-s for s in self.signs}
        return None

    def part(self, n):
        if n.op == "item" and self.is_t(n.args[0]) and \
                n.args[1].op == "slice":
            lo, hi, st = (is_val(x) for x in n.args[1].args)
            if st in (None, 1) and lo == 1 and hi is None:
                return "tail"
            if st in (None, 1) and lo in (None, 0) and hi == -1:
                return "head"
        return None

    def truths(self, n):
        """Set of element truth values of a boolean array, or None."""
        nm = self.name(n)
        if nm == "cmp" and n.meta in ("<", "<=", ">", ">=", "==", "!="):
            a, b = n.args
            s = None
            if is_val(b) == 0 and b.op == "const":
                s = self.steps(a)
            elif is_val(a) == 0 and a.op == "const":
                s = self.steps(b)
                s = s and {-x for x in s}
            else:
                s = self.shift(a, b)
            if s is None:
                return None
            f = {"<": lambda x: x < 0, "<=": lambda x: x <= 0,
                 ">": lambda x: x > 0, ">=": lambda x: x >= 0,
                 "==": lambda x: x == 0, "!=": lambda x: x != 0}[n.meta]
            return {f(x) for x in s}
        if nm in ("invert", "not", "numpy.logical_not") and n.args:
            t = self.truths(n.args[0])
            return t and {not x for x in t}
        return None

    def truth(self, n):
        nm = self.name(n)
        if nm in ("truth", "builtins.bool"):
            return self.truth(n.args[0])
        if nm == "not":
            t = self.truth(n.args[0])
            return None if t is None else not t
        if nm in ("numpy.any", "m:any", "builtins.any"):
            t = self.truths(n.args[0])
            return None if t is None else True in t
        if nm in ("numpy.all", "m:all", "builtins.all"):
            t = self.truths(n.args[0])
            return None if t is None else t == {True}
        if nm == "cmp" and n.meta in ("<", "<=", ">", ">="):
            a, b = n.args
            f = {"<": lambda x: x < 0, "<=": lambda x: x <= 0,
                 ">": lambda x: x > 0, ">=": lambda x: x >= 0}[n.meta]
            for x, g in ((a, f), (b, lambda v: f(-v))):
                y = b if x is a else a
                if self.name(x) in ("numpy.min", "m:min", "numpy.amin") and \
                        is_val(y) == 0:
                    s = self.steps(x.args[0])
                    return None if s is None else g(min(s))
                if self.name(x) in ("numpy.max", "m:max", "numpy.amax") and \
                        is_val(y) == 0:
                    s = self.steps(x.args[0])
                    return None if s is None else g(max(s))
        return None


def is_val(n):
    """Value of a constant; a unique object otherwise."""
    return cval(n) if n.op == "const" else object()


def order(ctx, rep):
    from .matching import World
    rule = "monotonic"
    rep.rule(rule, "a raise of ValueError is guarded by a condition on the "
                   "stamps that holds exactly when some stamp is smaller "
                   "than its predecessor")

    def run(con, build):
        def go():
            w, keys, r = build()
            for what, key in keys:
                for case, signs in SIGNS.items():
                    O = Order(key, signs)
                    hit = None
                    seen = False
                    for e in w.I.raises:
                        st = True
                        ev = False
                        for c, pol in e.pc:
                            t = O.truth(c)
                            if t is None:
                                continue
                            ev = True
                            if t != pol:
                                st = False
                        seen |= ev
                        if ev and st and e.how == "ValueError" and \
                                O.truth(e.pc[-1][0]) is not None:
                            hit = e
                            break
                    c = f"{con}: {what} {case}"
                    want = -1 in signs
                    if not seen:
                        if any("diff" in show_(x) or "sort" in show_(x)
                               or "monoton" in show_(x)
                               for e in w.I.raises for x, _ in e.pc):
                            rep.unknown(rule, c, "condition not understood")
                        elif want:
                            rep.bad(rule, c, "not rejected: no raise depends "
                                    "on the order of the stamps")
                        continue
                    rep.check(bool(hit) == want, rule, c,
                              "rejected" if hit else "accepted",
                              hit and hit.loc)
        ctx.guarded(rule, con, go)

    def lookup():
        w = World(ctx, {"W": None, "B": "W"}, {"B": "c"})
        r = w.method("B", "lookup_transform", [w.f["W"]])
        return w, [("frame stamps", k) for k in w.names], r

    def down():
        w = World(ctx, {"W": None, "B": "W"}, {"B": "d"})
        r = w.method("W", "lookup_transform", [w.f["B"]])
        return w, [("discrete frame stamps", k) for k in w.names], r

    def points(m):
        def f():
            w = World(ctx, {"W": None, "B": "W"}, {"B": "s"})
            arr, t = w.array("arr", True)
            r = w.method("B", m, [arr, w.f["W"]], {"timestamps": t})
            return w, [("array stamps", t.k)], r
        return f
    run("lookup_transform", lookup)
    run("lookup_transform downwards", down)
    for m in ("transform_points", "transform_vectors",
              "transform_quaternions"):
        run(m, points(m))


def show_(n):
    from ..ir import show
    return show(n)
