"""C15: labelled results describe themselves."""
from ..ctx import FALSE, NONE, TRUE, N, const, cval, is_none, show, sym
from ..dom.coords import Coord, Model
from ..dom.labelled import Reader, Set, Unknown, Var, labels, worlds

RULE = "labels"
TEXT = ("variables, dimensions, coordinate labels and attributes read off "
        "the construction of the result equal the specified ones")
SRC = "source-frame"
CART, QUAT = ("x", "y", "z"), ("w", "x", "y", "z")


def check(ctx, rep):
    rep.rule(RULE, TEXT)
    rep.rule(SRC, "the frame whose transform method is called is the one "
                  "named by the attribute for what is transformed")
    for stamped in (True, False):
        for nm in ("lookup_transform", "lookup_pose"):
            pose(ctx, rep, nm, stamped)
    for nm, key, vs in (
            ("lookup_twist", "as_dataset",
             ("linear_velocity", "angular_velocity")),
            ("lookup_linear_velocity", "as_dataarray", ("linear_velocity",)),
            ("lookup_angular_velocity", "as_dataarray",
             ("angular_velocity",))):
        for given in ("ref rep", "ref", ""):
            velocity(ctx, rep, nm, key, vs, given)
    for nm in KINDS:
        for w in KINDS[nm]:
            for ts in ("time", None, False):
                transform(ctx, rep, nm, w, ts)
            source(ctx, rep, nm, w)
    coordinates(ctx, rep)
    new_axis(ctx, rep)


KINDS = {"transform_points": ("reference_frame",),
         "transform_vectors": ("representation_frame",),
         "transform_quaternions": ("reference_frame",),
         "transform_angular_velocity": (
             "reference_frame", "moving_frame", "representation_frame"),
         "transform_linear_velocity": (
             "reference_frame", "moving_frame", "representation_frame")}


class Desc:
    """Obligations about one labelled value."""

    def __init__(self, rep, con, R, loc=None):
        self.rep, self.con, self.R, self.loc = rep, con, R, loc

    def ob(self, ok, what, found):
        self.rep.check(ok, RULE, f"{self.con}: {what}", found, self.loc)

    def node(self, got, want, what):
        if got is None:
            self.ob(False, what, "missing")
        elif isinstance(got, tuple):
            self.ob(False, what, "not set by the function")
        else:
            got = self.R.pick(got)
            if got.op == "const" and want.op == "const":
                self.ob(cval(got) == cval(want), what, f"is {cval(got)!r}")
            elif got.k == want.k:
                self.ob(True, what, f"is {show(want)}")
            elif simple(got) and simple(want):
                self.ob(False, what, f"is {show(got)}, specified "
                        f"{show(want)}")
            elif got.op == "last" and element(got.args[2]) and \
                    element(got.args[2]).args[0].k == got.args[0].k:
                self.ob(False, what, "is what the last pass of a loop over "
                        f"{show(got.args[0])[:60]} left in it")
            else:
                self.ob(None, what, f"is {show(got)[:120]}")

    def dims(self, v, want, what):
        d = None if v.dims is None else labels(self.R.pick(v.dims))
        self.ob(None if d is None else d == want, f"dimensions of {what}",
                f"{d}")

    def labels(self, co, nm, want):
        g = co.get(nm)
        if g is None or isinstance(g, tuple):
            self.ob(None if any(isinstance(k, tuple) for k in co.d) else
                    False, f"coordinate {nm}", "missing")
            return
        l = labels(self.R.pick(g))
        if l is None and g.op == "tuple" and len(g.args) >= 2:
            l = labels(g.args[1])
        self.ob(None if l is None else l == want, f"coordinate {nm}", f"{l}")


def element(n):
    """The element of a loop that n is (a part of)."""
    while n.op == "item" and n.args[1].op == "const":
        n = n.args[0]
    return n if n.op == "elem" else None


def simple(n):
    """A parameter, constant, or attribute or item of one."""
    while n.op in ("attr", "item") and (n.op == "attr" or
                                        n.args[1].op == "const"):
        n = n.args[0]
    return n.op in ("in", "const", "sym")


def quiet(ctx, ts):
    I = ctx.rot_interp()
    R = ctx.C.qualname + "."

    def opq(*names):
        return lambda I, a, k: I.mk("tuple", tuple(
            ts if n == "ts" else sym("opq_" + n, nonnull=True, kind="ndarray")
            for n in names))
    I.overrides[R + "lookup_transform"] = opq("t", "r", "ts")
    I.overrides[R + "lookup_twist"] = opq("linear", "angular", "ts")
    I.overrides[R + "lookup_linear_velocity"] = opq("linear", "ts")
    I.overrides[R + "lookup_angular_velocity"] = opq("angular", "ts")
    return I


def pose(ctx, rep, nm, stamped):
    con = f"{nm}(as_dataset){'' if stamped else ' static'}"

    def go():
        ts = sym("ts", kind="ndarray", nonnull=True) if stamped else NONE
        I = quiet(ctx, ts)
        a, b = ctx.frame("a"), ctx.frame("b")
        r = ctx.run(I, ctx.public(I, nm), [a, b], {"as_dataset": TRUE})
        R = Reader(I)
        try:
            s = R.read(r)
        except Unknown as e:
            rep.unknown(RULE, con, f"result not understood: {e}")
            return
        D = Desc(rep, con, R, r.loc)
        if not isinstance(s, Set):
            D.ob(False, "result", "not a dataset")
            return
        lin, ang = ("position", "orientation") if "pose" in nm else \
            ("translation", "rotation")
        D.ob(set(s.vars) == {lin, ang}, "variables", str(sorted(s.vars)))
        t = ("time",) if stamped else ()
        for v, ax, src in ((lin, "cartesian_axis", "opq_t"),
                           (ang, "quaternion_axis", "opq_r")):
            if v not in s.vars:
                continue
            x = s.vars[v]
            D.dims(x, t + (ax,), v)
            D.node(x.data, sym(src, nonnull=True, kind="ndarray"),
                   f"values of {v}")
            D.node(x.attrs.get("motion_type"), const(v), f"{v} motion_type")
            if v == lin:
                D.node(x.attrs.get("units"), const("m"), f"{v} units")
            if "pose" in nm:
                for at in ("representation_frame", "reference_frame"):
                    D.node(x.attrs.get(at), I.getattr(b, "name"),
                           f"{v} {at}")
        D.labels(s.coords, "cartesian_axis", CART)
        D.labels(s.coords, "quaternion_axis", QUAT)
        if stamped:
            D.node(s.coords.get("time"), ts, "time coordinate")
        else:
            D.ob(s.coords.get("time") is None, "time coordinate",
                 "none for a static transform")
    ctx.guarded(RULE, con, go)


def velocity(ctx, rep, nm, key, vs, given):
    con = f"{nm}({key}) given: {given or 'nothing'}"

    def go():
        ts = sym("ts", kind="ndarray", nonnull=True)
        I = quiet(ctx, ts)
        f = ctx.frame("f")
        par = I.getattr(f, "parent")
        I._fact(I.isnone(par), False)
        ref, rp = ctx.frame("ref"), ctx.frame("rp")
        kw = {key: TRUE}
        if "ref" in given:
            kw["reference"] = ref
        if "rep" in given:
            kw["represent_in"] = rp
        r = ctx.run(I, ctx.public(I, nm), [f], kw)
        R = Reader(I)
        try:
            s = R.read(r)
        except Unknown as e:
            rep.unknown(RULE, con, f"result not understood: {e}")
            return
        D = Desc(rep, con, R, r.loc)
        if isinstance(s, Set):
            D.ob(set(s.vars) == set(vs), "variables", str(sorted(s.vars)))
            its = [(v, s.vars[v]) for v in vs if v in s.vars]
            co = s.coords
        else:
            D.node(s.name, const(vs[0]), "name")
            its, co = [(vs[0], s)], s.coords
        refname = I.getattr(ref if "ref" in given else par, "name")
        repname = I.getattr(rp if "rep" in given else ref if "ref" in given
                            else par, "name")
        for v, x in its:
            D.dims(x, ("time", "cartesian_axis"), v)
            D.node(x.data, sym("opq_" + v.split("_")[0], nonnull=True,
                               kind="ndarray"), f"values of {v}")
            for at, want in (
                    ("motion_type", const(v)),
                    ("units", const("m/s" if "linear" in v else "rad/s")),
                    ("moving_frame", I.getattr(f, "name")),
                    ("reference_frame", refname),
                    ("representation_frame", repname)):
                if given == "" and at in ("reference_frame",
                                          "representation_frame"):
                    D.parent(x.attrs.get(at), par, f"{v} {at}") if False \
                        else parent(D, x.attrs.get(at), f"{v} {at}")
                    continue
                D.node(x.attrs.get(at), want, f"{v} {at}")
        D.labels(co, "cartesian_axis", CART)
        D.node(co.get("time"), ts, "time coordinate")
    ctx.guarded(RULE, con, go)


def parent(D, got, what):
    """The name of the frame resolved from the parent."""
    if got is None or isinstance(got, tuple):
        D.ob(False, what, "missing")
        return
    txt = show(D.R.pick(got))
    D.ob(True if "parent" in txt and txt.endswith(".name") else None, what,
         f"is {txt[:80]}")


def da_interp(ctx, da):
    I = ctx.rot_interp()

    def isda(I, a, k):
        return TRUE if a[0].k == da.k else FALSE if a[0].op != "phi" else \
            NotImplemented
    I.overrides["rigid_body_motion.utils.is_dataarray"] = isda
    return I


TS = ("time", None, False)


def run_transform(ctx, nm, what, ts, kw0, moving=True):
    da = sym("da", kind="DataArray", nonnull=True)
    I = da_interp(ctx, da)
    out = sym("ts_out", kind="ndarray", nonnull=True) if moving else NONE
    calls = []

    def hook(I, a, k, m=nm):
        calls.append((m, a, k))
        return I.mk("tuple", (I.mk("opq:" + m, (a[0],)), out))
    for m in KINDS:
        I.overrides[f"{ctx.C.qualname}.{m}"] = \
            lambda I, a, k, m=m: hook(I, a, k, m)
    kw = dict(kw0)
    if what and "velocity" in nm:
        kw["what"] = const(what)
    if ts is not None:
        kw["timestamps"] = const(ts)
    if "linear" in nm:
        kw.update(moving_frame=ctx.frame("mov"),
                  reference_frame=ctx.frame("ref"))
    r = ctx.run(I, ctx.public(I, nm), [da], kw)
    return I, da, out, calls, r


def transform(ctx, rep, nm, what, ts):
    for moving in (True, False):
        con = f"{nm}[{what}] of a labelled array, timestamps={ts!r}, " + \
            ("moving" if moving else "static")

        def go(moving=moving, con=con):
            I, da, out, calls, r = run_transform(
                ctx, nm, what, ts, {"into": ctx.frame("b"),
                                    "outof": ctx.frame("a")}, moving)
            if r is None:
                if not moving and ts == "time":
                    rep.ok(RULE, con, "stamped arrays keep their stamps")
                else:
                    rep.bad(RULE, con, "rejected")
                return
            for sc in scenarios(ts, moving):
                c = con + "".join(f", {x}" for x in sc if x)

                def one(R):
                    D = Desc(rep, c, R, r.loc)
                    result(D, I, da, what, ts, out, moving, sc, R.read(r),
                           ctx)
                try:
                    for d, _ in worlds(I, Hyp(I, da, out, sc), one):
                        pass
                except Unknown as e:
                    rep.unknown(RULE, c, f"result not understood: {e}",
                                r.loc)
        ctx.guarded(RULE, con, go)


EQ, LEN, VAL = "same stamps", "other number of stamps", "other stamps"


def scenarios(ts, moving):
    """(relation of the reported to the own stamps, dimensions of the
    array)"""
    if ts is False:
        return [("", "")]
    st = (EQ, LEN, VAL) if moving else ("",)
    if ts is None:
        return [(s, "2 dims") for s in st] + [("", "1 dim")]
    return [(s, "") for s in st]


class Hyp:
    """Truth of the conditions on stamps and dimensions in a scenario."""

    def __init__(self, I, da, out, sc):
        self.I, self.da, self.out = I, da, out
        self.st = sc[0]
        self.ndim = {"2 dims": 2, "1 dim": 1}.get(sc[1])

    def __call__(self, c):
        if c.op == "truth":
            return self.truth(c.args[0])
        if c.op in ("cmp", "numpy.array_equal", "m:equals", "m:identical",
                    "numpy.any", "numpy.all"):
            return self.truth(c)
        if c.op == "in_" and self.own_key(c.args[0]) and \
                self.coords(c.args[1]):
            return True
        if c.op == "isnone" and self.own_key(c.args[0]):
            return False
        return None

    def truth(self, n):
        if n.op == "cmp":
            a, b = n.args
            v = self.ndims(a), self.ndims(b)
            if None not in v:
                return {"==": v[0] == v[1], "<": v[0] < v[1],
                        "<=": v[0] <= v[1]}.get(n.meta)
            if n.meta == "==" and self.side(a) == self.side(b) == "own" \
                    and self.size(a) == self.size(b):
                return True
            if n.meta == "==" and self.st and self.pair(a, b):
                return None if self.st == VAL and not self.size(a) else \
                    self.st != LEN if self.size(a) else self.st == EQ
            return None
        if not self.st:
            return None
        if n.op in ("numpy.array_equal", "m:equals", "m:identical"):
            return self.st == EQ if self.pair(*n.args[:2]) else None
        if n.op in ("numpy.any", "numpy.all", "m:any", "m:all",
                    "builtins.any", "builtins.all"):
            x, neg = n.args[0], False
            while x.op == "not":
                x, neg = x.args[0], not neg
            if x.op != "cmp" or x.meta != "==":
                return None
            if self.side(x.args[0]) == self.side(x.args[1]) == "own":
                return not neg
            if not self.pair(*x.args):
                return None
            if n.op.endswith("any") == neg:     # any differ / all the same
                return (self.st == EQ) != neg
            return None
        return None

    def ndims(self, n):
        if n.op == "const":
            return cval(n) if isinstance(cval(n), int) else None
        if n.op == "attr" and n.meta == "ndim" and n.args[0].k == self.da.k:
            return self.ndim
        if n.op == "builtins.len" and n.args[0].op == "attr" and \
                n.args[0].meta in ("dims", "shape") and \
                n.args[0].args[0].k == self.da.k:
            return self.ndim
        return None

    def own_key(self, n):
        return n.op == "const" and cval(n) == "time" or self.dim0(n)

    def dim0(self, n):
        return n.op == "item" and n.args[0].op == "attr" and \
            n.args[0].meta == "dims" and n.args[0].args[0].k == self.da.k \
            and n.args[1].op == "const" and cval(n.args[1]) == 0

    def coords(self, n):
        while n.op in ("builtins.dict", "m:copy"):
            n = n.args[0]
        return n.op == "attr" and n.meta == "coords" and \
            n.args[0].k == self.da.k

    def size(self, n):
        return n.op == "builtins.len" or n.op == "attr" and n.meta in (
            "size", "shape") or n.op == "item" and self.size(n.args[0])

    def side(self, n):
        while True:
            if n.op in ("builtins.len", "numpy.asarray", "numpy.array") or \
                    n.op == "attr" and n.meta in ("size", "shape", "data",
                                                  "values") or \
                    n.op == "item" and self.size(n.args[0]):
                n = n.args[0]
            else:
                break
        if n.k == self.out.k:
            return "out"
        if n.op == "item" and self.own_key(n.args[1]) and (
                n.args[0].k == self.da.k or self.coords(n.args[0])):
            return "own"
        return None

    def pair(self, a, b):
        return {self.side(a), self.side(b)} == {"own", "out"} and \
            self.size(a) == self.size(b)


def result(D, I, da, what, ts, out, moving, sc, s, ctx):
    D.node(s.name, I.getattr(da, "name"), "name")
    into = I.getattr(ctx.frame("b"), "name")
    D.node(s.attrs.get(what), into, what)
    D.node(s.attrs.get("representation_frame"), into, "representation_frame")
    b = s.attrs.base
    D.ob(None if s.attrs.soft else b is not None and b.op == "attr" and
         b.meta == "attrs" and b.args[0].k == da.k, "other attributes",
         "those of the input" if b is not None else "dropped")
    D.ob(set(s.attrs.d) <= {what, "representation_frame"},
         "no further attributes", str(sorted(map(str, s.attrs.d))))
    dims = I.getattr(da, "dims")
    if ts is False or sc[1] == "1 dim":
        if moving:
            d = D.R.pick(s.dims)
            ok = d.op == "binop" and d.meta == "+" and \
                labels(d.args[0]) == ("time",) and d.args[1].k == dims.k \
                or d.op in ("tuple", "list") and len(d.args) == 2 and \
                labels(N("tuple", d.args[:1])) == ("time",) and \
                d.args[1].op == "star" and d.args[1].args[0].k == dims.k
            back = d.op == "binop" and d.meta == "+" and \
                labels(d.args[1]) == ("time",) and \
                d.args[0].k == dims.k and s.data.op.startswith("opq:")
            D.ob(True if ok else False if d.k == dims.k or back else None,
                 "dimensions", show(d)[:100])
            D.node(s.coords.get("time"), out, "time coordinate")
        else:
            D.node(s.dims, dims, "dimensions")
            D.ob("time" not in s.coords.d, "time coordinate", "not added")
        return
    D.node(s.dims, dims, "dimensions")
    if not moving:
        D.ob(not s.coords.d, "coordinates", "those of the input")
        return
    key = const("time") if ts == "time" else I.getitem(dims, const(0))
    g = s.coords.get(cval(key) if ts == "time" else ("computed", key.k))
    if isinstance(g, N):
        D.node(g, out, "time coordinate")
    elif sc[0] != EQ:
        D.ob(False, "time coordinate", "the stamps of the input are kept")
    D.ob(set(s.coords.d) <= {cval(key) if ts == "time" else
                             ("computed", key.k)}, "no further coordinates",
         str(len(s.coords.d)))
    if sc[0] != EQ:
        aligned(D, s.coords, key, out)


def aligned(D, co, key, out):
    """Other coordinates along the time axis are re-evaluated at the reported
    stamps."""
    what = "other coordinates along the time axis"
    if not co.soft:
        D.ob(False, what, "keep the values at the stamps of the input")
        return
    lp = co.soft[-1]
    if lp.op != "loop" or len(lp.args) < 4:
        D.ob(None, what, f"{lp.op}")
        return
    if one_pass(D, lp, key, out, what):
        return

    def leaves(n):
        """Values after one pass, for a coordinate along the time axis other
        than the time coordinate itself."""
        if n.op == "phi":
            d = cond(n.args[0])
            if d is not False:
                yield from leaves(n.args[1])
            if d is not True:
                yield from leaves(n.args[2])
        else:
            yield n

    def cond(c):
        if c.op == "not":
            d = cond(c.args[0])
            return None if d is None else not d
        if c.op == "phi":
            d = cond(c.args[0])
            if d is not None:
                return cond(c.args[1 if d else 2])
        if c.op == "const":
            return bool(cval(c))
        if c.op == "in_" and c.args[0].k == key.k and \
                c.args[1].op == "attr" and c.args[1].meta == "dims":
            return True
        if c.op == "cmp" and c.meta == "==" and key.k in (
                c.args[0].k, c.args[1].k) and any(
                    mentions(a, lambda n: n.op == "elem") for a in c.args):
            return False
        return None
    for v in leaves(lp.args[3]):
        if v.op == "mu":
            D.ob(False, what, "some are left at the stamps of the input")
        elif v.op != "update":
            D.ob(None, what, show(v)[:120])
        else:
            for x in leaves(v.args[2]):
                evaluated(D, x, key, out, what)


def passes(lp, key, out):
    """What a pass of the loop does to each kind of coordinate: [(coordinate,
    what becomes of it)]; None when the body is not understood."""
    tn = cval(key) if key.op == "const" else "time"
    dims = (tn, "channel", "ax")
    cs = [Coord(tn, (tn,), "M"), Coord("ax", ("ax",), "U"),
          Coord("speed", (tn,)), Coord("count", (tn,), "i"),
          Coord("label", (tn,), "U"), Coord("valid", (tn,), "b"),
          Coord("day", (tn,), "M"), Coord("station", ()),
          Coord("area", (tn, "channel")),
          Coord("part", ("channel", tn), "U")]
    da = None
    for n in walk(lp.args[0]):
        if n.op == "attr" and n.meta == "coords":
            da = n.args[0]
    init = lp.args[1]
    new = init.op == "dict" and not init.args
    if da is None or len(lp.args) > 4 and not is_true(lp.args[4]):
        return None
    done = []
    try:
        if not new and Model(da, dims, cs).ev(init) != {
                c.name: c for c in cs}:
            return None
        for c in cs:
            m = Model(da, dims, cs)
            seq, found = lp.args[0], False
            for x in m.elems(seq):
                name = x[0] if isinstance(x, tuple) else x
                if name == c.name or name is c:
                    m.bind(seq, x)
                    found = True
            v = lp.args[3]
            while found and v.op == "phi":
                v = v.args[1 if m.truth(v.args[0]) else 2]
            if not found or v.op == "mu":
                done.append((c, "dropped" if new else "kept"))
                continue
            if v.op != "update" or v.args[0].op != "mu" or \
                    m.ev(v.args[1]) != c.name:
                return None
            x = v.args[2]
            while x.op == "phi":
                x = x.args[1 if m.truth(x.args[0]) else 2]
            if x.k == out.k:
                how = "stamps"
            elif x.op == "item" or x.op == "elem":
                how = "kept" if m.ev(x) is c else "other"
            elif x.op in ("m:interp", "m:sel", "m:reindex") and \
                    m.ev(x.args[0]) is c:
                how = x.op if any(at(a, key, out) for a in x.args[1:]) \
                    else "elsewhere" if any(
                        a.op == "dict" for a in x.args[1:]) else x
            else:
                how = "position" if positional(x) else x
            done.append((c, how))
    except Unknown:
        return None
    return done


def is_true(n):
    return n.op == "const" and cval(n) is True


def one_pass(D, lp, key, out, what):
    """Whether the body is understood; reports what it does."""
    done = passes(lp, key, out)
    if done is None:
        return False
    dim = done[0][0].name
    for c, how in done[1:]:
        w = f"{what}: {'text' if c.kind == 'U' else c.name}"
        if dim not in c.dims:
            D.ob(None if isinstance(how, N) else how == "kept",
                 "coordinates not along the time axis", "are kept"
                 if how == "kept" else "are dropped" if how == "dropped"
                 else "are changed")
        elif isinstance(how, N):
            D.ob(None, what, show(how)[:120])
        elif how in ("kept", "dropped"):
            D.ob(False, what, f"some ({c.name}) are " + (
                "left at the stamps of the input" if how == "kept"
                else "dropped"))
        elif how == "elsewhere":
            D.ob(False, what, "evaluated elsewhere")
        elif how == "position":
            D.ob(False, what, "picked by position, not by stamp")
        elif how in ("other", "stamps"):
            D.ob(False, what, "replaced by another one")
        else:
            D.ob(how != "m:interp" or c.kind in "iufc", w,
                 "evaluated at the reported stamps" if how != "m:interp" or
                 c.kind in "iufc" else "text, flags and dates cannot be "
                 "interpolated")
    return True


def walk(n, seen=None):
    seen = set() if seen is None else seen
    if n.k in seen:
        return
    seen.add(n.k)
    yield n
    for a in n.args:
        for x in (a if isinstance(a, tuple) else (a,)):
            if isinstance(x, N):
                yield from walk(x, seen)


def evaluated(D, x, key, out, what):
    if mentions(x, lambda n: n.op in ("m:interp", "m:sel", "m:reindex") and
                any(at(a, key, out) for a in n.args[1:])):
        D.ob(True, what, "evaluated at the reported stamps")
    elif x.op in ("m:interp", "m:sel") and any(
            a.op == "dict" for a in x.args[1:]):
        D.ob(False, what, "evaluated elsewhere: " + show(x)[:80])
    elif positional(x):
        D.ob(False, what, "picked by position, not by stamp")
    elif x.op == "item" and x.args[0].op == "elem":
        D.ob(False, what, "some are left at the stamps of the input")
    else:
        D.ob(None, what, show(x)[:120])


def positional(n):
    """A coordinate cut to a number of samples."""
    while n.op in ("update", "setattr", "m:copy", "m:assign_coords",
                   "m:drop_vars", "m:reset_coords") or \
            n.op == "attr" and n.meta in ("values", "data", "variable"):
        n = n.args[0]
    return n.op == "m:head" or n.op == "m:tail" or n.op == "item" and \
        n.args[1].op == "slice" and all(
            b.op == "const" or b.op == "builtins.len" or
            b.op == "attr" and b.meta == "size" for b in n.args[1].args)


def at(n, key, out):
    if n.op != "dict":
        return False
    for a in n.args:
        k, v = a if isinstance(a, tuple) else a.args
        if k.k == key.k and v.k == out.k:
            return True
    return False


def mentions(n, f, seen=None):
    seen = set() if seen is None else seen
    if n.k in seen:
        return False
    seen.add(n.k)
    if f(n):
        return True
    return any(isinstance(x, N) and mentions(x, f, seen) for a in n.args
               for x in (a if isinstance(a, tuple) else (a,)))


def source(ctx, rep, nm, what):
    con = f"{nm}[{what}] without outof"

    def go():
        I, da, out, calls, r = run_transform(ctx, nm, what, "time",
                                             {"into": ctx.frame("b")})
        if not calls:
            rep.bad(SRC, con, "no transform is applied")
            return
        at = I.getattr(da, "attrs")
        for m, a, k in calls:
            rep.check(m == nm, SRC, con + ": method", f"calls {m}")
            keys = attr_keys(a[0], at)
            rep.check(None if not keys else keys == {what}, SRC,
                      con + ": frame", "frame named by "
                      f"{' or '.join(sorted(map(str, keys)))}")
            to = a[2] if len(a) > 2 else k.get("to_frame")
            rep.check(to is not None and to.k == ctx.frame("b").k, SRC,
                      con + ": target", "the given frame")
    ctx.guarded(SRC, con, go)

    def given():
        I, da, out, calls, r = run_transform(
            ctx, nm, what, "time", {"into": ctx.frame("b"),
                                    "outof": ctx.frame("a")})
        for m, a, k in calls:
            rep.check(m == nm, SRC, f"{nm}[{what}]: method", f"calls {m}")
            rep.check(a[0].k == ctx.frame("a").k, SRC,
                      f"{nm}[{what}]: frame", "the given frame")
    ctx.guarded(SRC, f"{nm}[{what}] with outof", given)


def attr_keys(n, attrs, seen=None):
    """Keys of `attrs` items that determine n."""
    seen = set() if seen is None else seen
    if n.k in seen or len(seen) > 3000:
        return set()
    seen.add(n.k)
    if n.op in ("item", "m:get", "m:pop") and under(n.args[0], attrs):
        k = n.args[1]
        return {cval(k) if k.op == "const" else "?"}
    out = set()
    args = n.args[1:] if n.op == "phi" else n.args
    for a in args:
        for x in (a if isinstance(a, tuple) else (a,)):
            if isinstance(x, N):
                out |= attr_keys(x, attrs, seen)
    return out


def under(n, attrs):
    while n.op in ("m:copy", "update", "builtins.dict", "updmany",
                   "copy.copy"):
        n = n.args[0]
    return n.k == attrs.k


def coordinates(ctx, rep):
    pairs = (("cartesian", "polar", 2, ("r", "phi")),
             ("polar", "cartesian", 2, ("x", "y")),
             ("cartesian", "spherical", 3, ("r", "theta", "phi")),
             ("spherical", "cartesian", 3, ("x", "y", "z")))
    for outof, into, k, lab in pairs:
        for given in (True, False):
            for repl in (True, False):
                for dim in (True, False):
                    coordinate(ctx, rep, outof, into, k, lab, given, repl,
                               dim)


def coordinate(ctx, rep, outof, into, k, lab, given, repl, dim):
    con = f"transform_coordinates {outof} to {into}" + \
        ("" if given else ", outof from the attribute") + \
        ("" if repl else ", axis kept") + ("" if dim else ", last axis")

    def go():
        da = sym("da", kind="DataArray", nonnull=True)
        I = da_interp(ctx, da)
        out = sym("arr_out", kind="ndarray", nonnull=True)
        hit = []
        for q in ctx.p.funcs:
            if q.startswith("rigid_body_motion.coordinate_systems."):
                def f(I, a, kw, q=q):
                    hit.append(q.rsplit(".", 1)[1])
                    return out
                I.overrides[q] = f
        at = I.getattr(da, "attrs")
        kw = {"into": const(into), "replace_dim": const(repl)}
        if dim:
            kw["dim"] = const("ax")
        if given:
            kw["outof"] = const(outof)
        r = ctx.run(I, ctx.public(I, "transform_coordinates"), [da], kw)
        if r is None:
            rep.bad(RULE, con, "rejected")
            return

        def hyp(c):
            if c.op == "in_" and c.args[0].op == "const" and \
                    cval(c.args[0]) == "coordinate_system" and \
                    under(c.args[1], at):
                return True
            if c.op == "cmp" and c.meta == "==":
                for x, y in (c.args, c.args[::-1]):
                    if y.op == "const" and from_attr(x, at):
                        return cval(y) == outof
            return size_test(c, out, k)

        def one(R):
            s = R.read(r)
            D = Desc(rep, con, R, r.loc)
            D.node(s.attrs.get("coordinate_system"), const(into),
                   "coordinate_system")
            D.node(s.name, I.getattr(da, "name"), "name")
            D.node(s.data, out, "values")
            new = into + "_axis"
            if repl:
                D.labels(s.coords, new, lab)
                renamed(D, I.getattr(da, "dims"), s.dims, new)
                dropped(D, s.coords, I.getattr(da, "dims"))
            else:
                D.node(s.dims, I.getattr(da, "dims"), "dimensions")
                D.ob(new not in s.coords.d, "coordinates", "kept")
        try:
            for d, _ in worlds(I, hyp, one):
                pass
        except Unknown as e:
            rep.unknown(RULE, con, f"result not understood: {e}", r.loc)
        want = f"{outof}_to_{into}"
        if given:
            rep.check(set(hit) == {want}, SRC, con + ": conversion",
                      str(sorted(set(hit))))
        else:
            rep.check(want in hit, SRC, con + ": conversion",
                      str(sorted(set(hit))))
    ctx.guarded(RULE, con, go)


def kept_names(dims, co):
    """For one array with coordinates of every kind: {coordinate: (is it kept,
    does it run along the replaced axis)}."""
    tab = co.base if co.base is not None else co.soft[0] if co.soft else None
    if tab is None or len(co.soft) > 1 or \
            co.soft and co.soft[0].k != tab.k or dims.op != "attr":
        return None
    cs = [Coord("ax", ("ax",), "U"), Coord("time", ("time",), "M"),
          Coord("speed", ("time",)), Coord("label", ("time",), "U"),
          Coord("station", ()), Coord("channel", ("channel",), "i"),
          Coord("area", ("time", "channel")), Coord("unit", ("ax",), "U"),
          Coord("gain", ("channel", "ax"))]
    m = Model(dims.args[0], ("time", "channel", "ax"), cs)
    try:
        got = m.ev(tab)
    except Unknown:
        return None
    if not isinstance(got, dict):
        return None
    return {c.name: (got.get(c.name) is c, "ax" in c.dims) for c in cs}


def dropped(D, co, dims):
    """Of the coordinates of the input, exactly those along the replaced axis
    are left out."""
    what = "coordinates along the replaced axis"
    d = kept_names(dims, co)
    if d is not None:
        for nm, (left, along) in d.items():
            if along:
                D.ob(not left, what, "are left out" if not left else
                     "are kept although the axis is gone")
            else:
                D.ob(left, f"other coordinates ({nm})",
                     "are kept" if left else "are dropped")
        return
    if len(co.soft) != 1 or co.soft[0].op != "dictcomp" or \
            co.soft[0].args[0].op != "mapseg":
        if co.base is not None and not co.soft:
            D.ob(False, what, "are kept")
        return
    m = co.soft[0].args[0]
    flt = m.args[2] if len(m.args) > 2 else const(True)

    def old(n):
        return n.op == "const" and cval(n) == "ax" or n.op == "item" and \
            n.args[0].k == dims.k

    def truth(c, along):
        if c.op == "not":
            d = truth(c.args[0], along)
            return None if d is None else not d
        if c.op == "truth":
            return truth(c.args[0], along)
        if c.op == "const":
            return bool(cval(c))
        if c.op == "phi":
            d = truth(c.args[0], along)
            return None if d is None else truth(c.args[1 if d else 2], along)
        if c.op == "in_" and old(c.args[0]) and c.args[1].op == "attr" and \
                c.args[1].meta in ("dims", "sizes"):
            return along
        if c.op == "cmp" and c.meta == "==":
            for x, y in (c.args, c.args[::-1]):
                if old(x) and y.op == "elem":
                    return False    # a coordinate with another name
                if x.op == "attr" and x.meta in ("ndim", "size"):
                    return None
        return None
    for along in (True, False):
        d = truth(flt, along)
        if d is None:
            return
        if along:
            D.ob(not d, what, "are left out" if not d else
                 "are kept although the axis is gone")
        else:
            D.ob(d, "other coordinates", "are kept" if d else "are dropped")


def pieces(n):
    """The parts of a sum of sequences."""
    if n.op == "binop" and n.meta == "+":
        return pieces(n.args[0]) + pieces(n.args[1])
    return [n]


def spliced(D, old, got, new):
    """dims[:i] + (new,) + dims[i + 1:]: whether this renames the axis i."""
    p = pieces(got)
    if len(p) != 3 or p[1].op not in ("tuple", "list") or \
            len(p[1].args) != 1 or any(
                x.op != "item" or x.args[0].k != old.k or
                x.args[1].op != "slice" for x in (p[0], p[2])):
        return None
    nm = D.R.pick(p[1].args[0])
    (a, b, s), (c, d, t) = p[0].args[1].args, p[2].args[1].args
    if nm.op != "const" or not all(is_none(x) for x in (a, s, d, t)):
        return None
    if cval(nm) != new:
        return False
    if b.op == "const" and type(cval(b)) is int and cval(b) < 0:
        if cval(b) == -1:
            # everything follows dims[0:]
            return c.op == "builtins.len" or c.op == "const" and \
                cval(c) is not None and cval(c) > 90
        return c.op == "const" and cval(c) == cval(b) + 1
    if c.op == "binop" and c.meta == "+" and b.op == "m:index":
        x, y = c.args
        if y.k == b.k:
            x, y = y, x
        return x.k == b.k and y.op == "const" and cval(y) == 1 or None
    return None


def put(D, old, got, new):
    """dims = list(dims); dims[dims.index(x)] = new: renames one axis."""
    base, i, nm = (got.args + (None,) * 3)[:3]
    if nm is None or base.op == "update" or i.op != "m:index":
        return None
    nm = D.R.pick(nm)

    def copy(x):
        while x.op in ("list", "tuple", "builtins.list", "builtins.tuple") \
                and len(x.args) == 1:
            x = x.args[0]
        return x.k == old.k or x.op == "mapseg" and x.args[0].k == old.k \
            and x.args[1].op == "elem" and cval(x.args[2]) is True
    if nm.op != "const" or not copy(base) or not copy(i.args[0]):
        return None
    return cval(nm) == new


def renamed(D, old, got, new):
    """Every dimension keeps its name and place but the transformed one."""
    got = D.R.pick(got)
    m = got.args[0] if got.op in ("list", "tuple", "builtins.tuple",
                                  "builtins.list") and got.args else got
    if m.op != "mapseg" or m.args[0].k != old.k:
        D.ob(False if got.k == old.k else
             put(D, old, m if m.op == "update" else got, new)
             if "update" in (m.op, got.op) else
             spliced(D, old, got, new),
             "dimensions", show(got)[:120])
        return
    e = m.args[1]
    ok = None
    if e.op == "phi" and e.args[0].op == "cmp" and e.args[0].meta == "==" \
            and any(x.op == "elem" for x in e.args[0].args):
        a, b = D.R.pick(e.args[1]), D.R.pick(e.args[2])
        ok = b.op == "elem" and (cval(a) == new if a.op == "const" else
                                 None) if b.op in ("elem", "const") else None
        if a.op == "elem":
            ok = False
    elif e.op == "elem":
        ok = False
    D.ob(ok, "dimensions", f"{show(e)[:120]}")


def from_attr(n, attrs):
    return n.op in ("item", "m:get") and under(n.args[0], attrs) and \
        n.args[1].op == "const" and cval(n.args[1]) == "coordinate_system"


def size_test(c, arr, k):
    """Truth of `arr.shape[i] == c` when that length is k."""
    if c.op == "not":
        v = size_test(c.args[0], arr, k)
        return None if v is None else not v
    if c.op == "cmp" and c.meta == "==":
        a, b = c.args
        if a.op == "const":
            a, b = b, a
        if b.op == "const" and is_len(a, arr):
            return cval(b) == k
    return None


def is_len(n, arr):
    return n.op == "item" and n.args[0].op == "attr" and \
        n.args[0].meta == "shape" and n.args[0].args[0].k == arr.k


def new_axis(ctx, rep):
    """Functions whose result may have another kind of component axis."""
    for nm, axis, lab, n in (
            ("shortest_arc_rotation", "quaternion_axis", QUAT, 1),
            ("estimate_angular_velocity", "cartesian_axis", CART, 1),
            ("estimate_linear_velocity", None, None, 1),
            ("best_fit_rotation", "quaternion_axis", QUAT, 1),
            ("best_fit_transform", None, None, 2),
            ("iterative_closest_point", None, None, 2)):
        def go(nm=nm, axis=axis, lab=lab, n=n):
            da = sym("da", kind="DataArray", nonnull=True)
            I = da_interp(ctx, da)
            for h in ("_estimate_angular_velocity",
                      "_estimate_linear_velocity"):
                I.overrides["rigid_body_motion.core." + h] = \
                    lambda I, a, k: sym("est", kind="ndarray", nonnull=True)
            pos = [da] if "velocity" in nm else [
                da, sym("v2", kind="ndarray", nonnull=True)]
            kw = {"dim": const("ax")}
            if "velocity" in nm:
                kw["timestamps"] = const("time")
            r = ctx.run(I, ctx.public(I, nm), pos, kw)
            its = [r] if n == 1 else [I.cur(I.getitem(r, const(i)))
                                      for i in range(2)]
            for i, x in enumerate(its):
                con = nm + (f"[{i}]" if n > 1 else "")
                a, l, name = (axis, lab, None) if n == 1 else (
                    ("cartesian_axis", CART, "translation"),
                    ("quaternion_axis", QUAT, "rotation"))[i]

                def one(R):
                    D = Desc(rep, con, R, x.loc)
                    s = R.read(x)
                    if not isinstance(s, Var) or s.coords is None:
                        D.ob(None, "result", "not read")
                        return
                    dims = I.getattr(da, "dims")
                    if a:
                        D.labels(s.coords, a, l)
                        if nm in ("shortest_arc_rotation",
                                  "estimate_angular_velocity"):
                            dropped(D, s.coords, dims)
                    else:
                        D.node(s.dims, dims, "dimensions")
                    if name:
                        D.node(s.name, const(name), "name")
                        D.dims(s, (a,), "result")
                    elif nm == "best_fit_rotation":
                        D.node(s.name, const("rotation"), "name")
                        D.dims(s, (a,), "result")
                    else:
                        D.node(s.name, I.getattr(da, "name"), "name")
                        if a:
                            renamed(D, dims, s.dims, a)
                h = Hyp(I, da, sym("no", kind="ndarray"), (EQ, ""))
                try:
                    for d, _ in worlds(I, h, one):
                        pass
                except Unknown as e:
                    rep.unknown(RULE, con, f"result not understood: {e}",
                                x.loc)
        ctx.guarded(RULE, nm, go)
