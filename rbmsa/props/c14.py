"""C14: options reach the step they control."""
from ..ctx import FALSE, TRUE, N, const, cval, show, sym, walk
from .c07 import STAR
from .matching import World

FWD = "forwarded"
SINK = "controls"
OPT = ("cutoff", "outlier_thresh", "mode")


def check(ctx, rep):
    rep.rule(FWD, "the value bound to the parameter of the method called is "
                  "the option of the caller")
    rep.rule(SINK, "the option is the operand of the step it controls, in "
                   "every component it is documented for")
    for m in TRANSFORMS:
        ctx.guarded(FWD, m, lambda m=m: transform(ctx, rep, m))
        ctx.guarded(FWD, m + " defaults", lambda m=m: default(ctx, rep, m))
    for m in LOOKUPS:
        ctx.guarded(FWD, m, lambda m=m: lookup(ctx, rep, m))
    velocities(ctx, rep)
    estimators(ctx, rep)
    frames(ctx, rep)


ARRAY = ("axis", "time_axis", "timestamps")
TRANSFORMS = {
    "transform_vectors": ARRAY, "transform_points": ARRAY,
    "transform_quaternions": ARRAY,
    "transform_angular_velocity": ARRAY + ("what", "cutoff"),
    "transform_linear_velocity": ARRAY + (
        "what", "cutoff", "outlier_thresh", "moving_frame",
        "reference_frame")}
LOOKUPS = {
    "lookup_twist": ("reference", "represent_in", "outlier_thresh", "cutoff",
                     "mode"),
    "lookup_linear_velocity": ("reference", "represent_in",
                               "outlier_thresh", "cutoff"),
    "lookup_angular_velocity": ("reference", "represent_in",
                                "outlier_thresh", "cutoff", "mode")}


def leaves(n):
    if n.op == "phi":
        return leaves(n.args[1]) + leaves(n.args[2])
    return [n]


def falsy(n):
    return n.op == "const" and not cval(n)


def carries(rep, rule, con, got, opt):
    """got is the option, or a falsy default where the option is falsy."""
    if got is None:
        rep.bad(rule, con, "not passed on")
        return
    ls = leaves(got)
    hit = [x for x in ls if x.k == opt.k]
    if hit and all(x.k == opt.k or falsy(x) for x in ls):
        rep.ok(rule, con, "passed on")
    elif not any(x.k == opt.k for x in walk(got)):
        rep.bad(rule, con, f"is {show(got)[:80]}", got.loc)
    else:
        rep.check(None, rule, con, f"is {show(got)[:80]}", got.loc)


def bind(ctx, meth, a, k):
    """Argument nodes by parameter name (self first)."""
    fi = ctx.p.funcs.get(f"{ctx.C.qualname}.{meth}")
    names = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args]
    out = dict(zip(names, a))
    out.update(k)
    return out


def capture(ctx, I, meth, n):
    calls = []

    def hook(I, a, k):
        calls.append(bind(ctx, meth, a, k))
        return I.mk("tuple", tuple(
            sym(f"out{i}", kind="ndarray", nonnull=True) for i in range(n)))
    q = f"{ctx.C.qualname}.{meth}"
    if q in ctx.p.funcs:
        I.overrides[q] = hook
    return calls


def values(names):
    kind = {"axis": "int", "time_axis": "int", "timestamps": "ndarray",
            "what": "str", "mode": "str"}
    return {n: sym("opt_" + n, nonnull=True, **(
        {"kind": kind[n]} if n in kind else {})) for n in names}


def transform(ctx, rep, m):
    I = ctx.rot_interp()
    arr = sym("arr", kind="ndarray", nonnull=True)
    I.overrides["rigid_body_motion.utils.is_dataarray"] = \
        lambda I, a, k: FALSE
    calls = capture(ctx, I, m, 2)
    v = values(TRANSFORMS[m])
    for p in ("moving_frame", "reference_frame"):
        if p in v:
            v[p] = ctx.frame("opt_" + p)
    # axes that refer to the same dimension are rejected
    a, b = ctx.frame("a"), ctx.frame("b")
    r = ctx.run(I, ctx.public(I, m), [arr], dict(
        v, into=b, outof=a, return_timestamps=TRUE))
    if r is None or not calls:
        rep.bad(FWD, m, "the method is not called")
        return
    for c in calls:
        for n in TRANSFORMS[m]:
            carries(rep, FWD, f"{m}: {n}", c.get(n), v[n])
        for p, want in (("self", a), ("arr", arr), ("to_frame", b)):
            carries(rep, FWD, f"{m}: {p}", c.get(p), want)
    # both parts of the method's result are returned
    want = I.mk("tuple", (sym("out0", kind="ndarray", nonnull=True),
                          sym("out1", kind="ndarray", nonnull=True)))
    got = [I.cur(I.getitem(r, const(i))) for i in range(2)]
    rep.check(all(x.k == y.k for x, y in zip(got, want.args)) or None, FWD,
              f"{m}: result", f"{[show(x)[:40] for x in got]}")


def default(ctx, rep, m):
    """return_timestamps=False: only the array."""
    I = ctx.rot_interp()
    arr = sym("arr", kind="ndarray", nonnull=True)
    I.overrides["rigid_body_motion.utils.is_dataarray"] = \
        lambda I, a, k: FALSE
    capture(ctx, I, m, 2)
    kw = {"into": ctx.frame("b"), "outof": ctx.frame("a")}
    r = ctx.run(I, ctx.public(I, m), [arr], kw)
    if r is None:
        rep.bad(FWD, f"{m}: return_timestamps=False", "rejected")
        return
    ls = leaves(r)
    rep.check(True if all(x.k == sym("out0", kind="ndarray",
                                     nonnull=True).k for x in ls) else
              False if all(x.op == "tuple" for x in ls) else None, FWD,
              f"{m}: return_timestamps=False", show(r)[:80])


def lookup(ctx, rep, m):
    I = ctx.rot_interp()
    n = 3 if m == "lookup_twist" else 2
    calls = capture(ctx, I, m, n)
    v = values(LOOKUPS[m])
    for p in ("reference", "represent_in"):
        v[p] = ctx.frame("opt_" + p)
    f = ctx.frame("f")
    for ret in (True, False):
        del calls[:]
        r = ctx.run(I, ctx.public(I, m), [f], dict(
            v, return_timestamps=TRUE if ret else FALSE))
        if r is None or not calls:
            rep.bad(FWD, m, "the method is not called")
            return
        for c in calls:
            for p in LOOKUPS[m]:
                carries(rep, FWD, f"{m}: {p}", c.get(p), v[p])
            carries(rep, FWD, f"{m}: frame", c.get("self"), f)
        w = [sym(f"out{i}", kind="ndarray", nonnull=True) for i in range(n)]
        w = w if ret else w[:-1]
        con = f"{m}: return_timestamps={ret}"
        got = [r] if len(w) == 1 else list(r.args) if r.op == "tuple" else \
            [I.cur(I.getitem(r, const(i))) for i in range(len(w))]
        known = {x.k for x in w} | {sym(
            f"out{n - 1}", kind="ndarray", nonnull=True).k}
        same = [x.k for x in got] == [x.k for x in w]
        rep.check(same or (False if all(
            x.k in known or x.op == "tuple" for x in got) else None), FWD,
            con, f"{[show(x)[:40] for x in got]}")


# -- what the options control

def second_difference(n):
    return any(x.op == "numpy.diff" for x in flow(n))


def steps(n, walk=walk):
    """(option name, operand node) of every step an option controls."""
    for x in walk(n):
        if x.op == "scipy.signal.butter" and len(x.args) > 1:
            yield "cutoff", x.args[1], x
        elif x.op == "cmp":
            a, b = x.args
            if x.meta in ("<=", "<") and second_difference(a) != \
                    second_difference(b):
                yield "outlier_thresh", b if second_difference(a) else a, x
            elif x.meta == "==":
                for y, z in ((a, b), (b, a)):
                    if y.op == "const" and cval(y) in (
                            "quaternion", "rotation_vector"):
                        yield "mode", z, x


def mentions(n, k):
    return any(x.k == k for x in walk(n))


def undue(c, name, opt):
    """Whether a step may depend on condition c: True when it must not,
    None when c may be about input for which the step does nothing."""
    if any(x.k == opt.k for x in flow(c)):
        return False
    for x in flow(c):
        if x.op in ("numpy.array_equal", "numpy.all", "m:all", "numpy.any",
                    "m:any", "quant", "numpy.isnan", "numpy.allclose",
                    "builtins.all", "builtins.any", "numpy.diff", "loop"):
            return None
        if x.op == "cmp" and any(
                y.op == "const" and cval(y) in (0, 1) for y in x.args):
            return None
        if x.op == "truth" and x.args[0].op in ("builtins.len", "item"):
            return None
        if x.op == "attr" and x.meta == "size":
            return None
    return True


def flow(n):
    """Nodes whose values, not only shapes, reach n."""
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x.k in seen:
            continue
        seen.add(x.k)
        yield x
        if x.op == "attr" and x.meta in ("shape", "ndim", "dtype", "size") \
                or x.op in ("builtins.len", "numpy.shape", "numpy.ndim"):
            continue
        for a in x.args[1:] if x.op == "phi" else x.args:
            st += [y for y in (a if isinstance(a, tuple) else (a,))
                   if isinstance(y, N)]


def guards(value, name, opt):
    """Conditions other than the option that decide whether its step is
    part of the value."""
    memo = {}

    def has(n):
        if n.k not in memo:
            memo[n.k] = any(nm == name and mentions(o, opt.k)
                            for nm, o, _ in steps(n, flow))
        return memo[n.k]
    out = {}
    for x in flow(value):
        if x.op == "phi" and has(x.args[1]) != has(x.args[2]):
            out[x.args[0].k] = x.args[0]
    for nm, o, at in steps(value):
        if nm == name:
            for y in walk(o):
                if y.op == "phi" and (y.args[1].k == opt.k) != (
                        y.args[2].k == opt.k):
                    out[y.args[0].k] = y.args[0]
    return list(out.values())


def limited(n, own, name):
    """Several valid values of the option have the same effect."""
    lo, hi = (0, 1) if name == "cutoff" else (0, float("inf"))
    if n.op in ("builtins.min", "builtins.max", "numpy.minimum",
                "numpy.maximum", "numpy.clip"):
        a = n.args[0].args if len(n.args) == 1 and n.args[0].op in (
            "tuple", "list") else n.args
        if any(x.k == own.k for x in a):
            return any(isinstance(cval(x), (int, float)) and
                       lo < cval(x) < hi for x in a if x.op == "const")
    if n.op in ("builtins.round", "numpy.round", "builtins.int",
                "numpy.floor", "numpy.ceil"):
        return any(x.k == own.k for x in n.args)
    return False


def controls(rep, con, value, opts, all_opts):
    """Each option of `opts` is used in value; no step uses another."""
    seen = {}
    for name in opts:
        if name == "mode":
            continue
        for c in guards(value, name, all_opts[name]):
            u = undue(c, name, all_opts[name])
            if u is not False:
                rep.check(None if u is None else False, SINK,
                          f"{con}: {name} in every case",
                          f"takes effect depending on {show(c, 4)[:90]}",
                          c.loc)
    for name, operand, at in steps(value):
        seen.setdefault(name, []).append((operand, at))
    for name, uses in seen.items():
        for operand, at in uses:
            ls = leaves(operand)
            if operand.op == "const" or name not in all_opts:
                continue
            own = all_opts[name]
            others = [o for p, o in all_opts.items() if p != name]
            if any(x.k == own.k for x in ls):
                rep.ok(SINK, f"{con}: {name}", "operand", at.loc)
            elif any(y.k == o.k for o in others for y in walk(operand)):
                rep.bad(SINK, f"{con}: {name}", "another option is used: "
                        f"{show(operand)[:60]}", at.loc)
            elif any(x.k == own.k for x in walk(operand)):
                rep.check(False if limited(operand, own, name) else None,
                          SINK, f"{con}: {name}",
                          f"{show(operand)[:80]}", at.loc)
            else:
                rep.bad(SINK, f"{con}: {name}", f"is "
                        f"{show(operand)[:60]}", at.loc)
    for name in opts:
        if name in seen and any(
                x.k == all_opts[name].k for o, _ in seen[name]
                for x in leaves(o)):
            continue
        there = any(x.k == all_opts[name].k for x in walk(value))
        rep.check(None if there else False, SINK, f"{con}: {name}",
                  "used in a step that is not understood" if there else
                  "has no influence on the result")


def velocities(ctx, rep):
    kinds = dict(A="c", B="s", C="s", W="s")

    def get(w, r, i):
        return w.I.cur(w.I.getitem(r, const(i)))

    def look(q, api, parts):
        con = f"{q} ({api})"

        def go():
            w = World(ctx, STAR, kinds)
            opts = {n: v for n, v in values(LOOKUPS[q]).items() if n in OPT}
            kw = dict(opts, represent_in=w.f["C"], return_timestamps=TRUE)
            if api == "method":
                r = w.method("A", q, [w.f["B"]], kw)
            else:
                kw["reference"] = w.f["B"]
                r = w.call(ctx.public(w.I, q), [w.f["A"]], kw)
            if r is None:
                rep.bad(SINK, con, "rejected")
                return
            for i, (nm, use) in enumerate(parts):
                controls(rep, f"{con} {nm}", get(w, r, i), use, opts)
        ctx.guarded(SINK, con, go)
    for api in ("method", "function"):
        look("lookup_twist", api, [
            ("linear", ("cutoff", "outlier_thresh")),
            ("angular", ("cutoff", "mode"))])
        look("lookup_linear_velocity", api, [
            ("linear", ("cutoff", "outlier_thresh"))])
        look("lookup_angular_velocity", api, [
            ("angular", ("cutoff", "mode", "outlier_thresh"))])

    def trans(q, what, api, stamped):
        con = f"{q}[{what}] ({api}{'' if stamped else ', static array'})"

        def go():
            w = World(ctx, STAR, kinds)
            opts = {n: v for n, v in values(TRANSFORMS[q]).items()
                    if n in OPT}
            arr, t = w.array("arr", stamped)
            kw = dict(opts, what=const(what), return_timestamps=TRUE)
            if stamped:
                kw["timestamps"] = t
            if "linear" in q:
                kw["moving_frame" if what == "reference_frame" else
                   "reference_frame"] = w.f["C"]
            if api == "method":
                r = w.method("A", q, [arr, w.f["B"]], kw)
            else:
                w.I.overrides["rigid_body_motion.utils.is_dataarray"] = \
                    lambda I, a, k: FALSE
                r = w.call(ctx.public(w.I, q), [arr], dict(
                    kw, into=w.f["B"], outof=w.f["A"]))
            if r is None:
                rep.bad(SINK, con, "rejected")
                return
            v = get(w, r, 0)
            controls(rep, con, v, tuple(opts), opts)
            if "linear" in q:
                parts = crossed(v)
                rep.check(len(parts) > 0 or None, SINK, con + " rotation",
                          "contribution of the rotation found")
                for p in parts:
                    controls(rep, con + " rotation", p, ("cutoff",), opts)
        ctx.guarded(SINK, con, go)
    for what in ("reference_frame", "moving_frame"):
        for api in ("method", "function"):
            for stamped in (True, False):
                trans("transform_angular_velocity", what, api, stamped)
                trans("transform_linear_velocity", what, api, stamped)


def crossed(n):
    """The velocities among the operands of cross products."""
    out = []
    for x in walk(n):
        if x.op == "numpy.cross":
            a = [y for y in x.args[:2] if any(
                z.op in ("quaternion.derivative", "numpy.gradient",
                         "scipy.signal.filtfilt", "numpy.diff")
                for z in walk(y))]
            out.append(a[0] if len(a) == 1 else x.args[0])
    return out


def estimators(ctx, rep):
    for q, use in (("estimate_linear_velocity", ("cutoff",
                                                 "outlier_thresh")),
                   ("estimate_angular_velocity", OPT)):
        def go(q=q, use=use):
            I = ctx.rot_interp()
            I.overrides["rigid_body_motion.utils.is_dataarray"] = \
                lambda I, a, k: FALSE
            opts = values(use)
            arr = sym("arr", kind="ndarray", nonnull=True)
            ts = sym("ts", kind="ndarray", nonnull=True)
            ta = sym("opt_time_axis", nonnull=True, kind="int")
            r = ctx.run(I, ctx.public(I, q), [arr], dict(
                opts, timestamps=ts, time_axis=ta))
            if r is None:
                rep.bad(SINK, q, "rejected")
                return
            controls(rep, q, r, use, opts)
            for nm, s in (("timestamps", ts), ("time_axis", ta)):
                rep.check(any(x.k == s.k for x in walk(r)), SINK,
                          f"{q}: {nm}", "influences the result")
        ctx.guarded(SINK, q, go)


def frames(ctx, rep):
    """Constructors pass on what they are given."""
    I = ctx.rot_interp()
    par = ctx.frame("par")
    name = sym("name", kind="str", nonnull=True)
    disc = sym("opt_discrete", nonnull=True)
    inv = sym("opt_inverse", nonnull=True)

    def inverse(nm, I, r):
        for at in ("rotation", "translation"):
            v = I.getattr(r, at)
            c = f"{nm}: inverse ({at})"
            rep.check(any(x.k == inv.k for x in walk(v)), FWD, c,
                      "influences the value")
            rep.check(not any(x.k == disc.k for x in walk(v)), FWD, c,
                      "independent of `discrete`")
    da = sym("da", kind="DataArray", nonnull=True)
    tsn = const("stamps")

    def inst(nm, f, a, k, own_ts=None):
        def go():
            r = ctx.run(I, f(), a, k)
            if r is None:
                rep.bad(FWD, nm, "rejected")
                return
            for at, want in (("name", name), ("parent", par),
                             ("discrete", disc)):
                if at == "discrete" and at not in k:
                    continue
                carries(rep, FWD, f"{nm}: {at}", I.getattr(r, at), want)
            inverse(nm, I, r)
            if own_ts is not None:
                t = I.getattr(r, "timestamps")
                rep.check(True if any(x.k == own_ts.k for x in walk(t))
                          else False if not any(x.op == "item" and
                                                x.args[1].k == tsn.k
                                                for x in walk(t)) else None,
                          FWD, f"{nm}: timestamps", show(t)[:80])
        ctx.guarded(FWD, nm, go)
    ref = ctx.public(I, "ReferenceFrame")
    ts = sym("ts", kind="ndarray", nonnull=True)
    inst("ReferenceFrame", lambda: ref, [name], {
        "parent": par, "timestamps": ts, "discrete": disc,
        "inverse": inv}, ts)
    for m in ("from_dataset", "from_translation_dataarray",
              "from_rotation_dataarray"):
        names = {"translation": const("t"), "rotation": const("r")} \
            if m == "from_dataset" else {}
        inst(m, lambda m=m: I.getattr(ref, m), [da], dict(
            names, timestamps=tsn, parent=par, name=name, discrete=disc,
                        inverse=inv),
            I.getitem(da, tsn))
    inst("from_rotation_matrix", lambda: I.getattr(
        ref, "from_rotation_matrix"),
        [sym("mat", kind="ndarray", nonnull=True)],
        {"parent": par, "name": name, "inverse": inv})

    def reg():
        I = ctx.rot_interp()
        ctx.run(I, ctx.public(I, "register_frame"), [name], {
            "parent": par, "timestamps": ts, "discrete": disc,
            "inverse": inv})
        r = I.cur(I.getitem(I.cur(ctx.registry(I)), name))
        for at, want in (("name", name), ("parent", par),
                         ("discrete", disc)):
            carries(rep, FWD, f"register_frame: {at}", I.getattr(r, at),
                    want)
        inverse("register_frame", I, r)
        rep.check(any(x.k == ts.k for x in walk(I.getattr(r, "timestamps"))),
                  FWD, "register_frame: timestamps", "passed on")
    ctx.guarded(FWD, "register_frame", reg)
