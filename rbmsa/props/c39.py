"""C39: the ROS transformer answers for the frames and time asked for."""
from ..ctx import NONE, N, const, cval, is_none, show, sym
from . import rosmsg as M_

ASK = "lookup"
FEED = "buffer"
TREE = "tree"
MOD = "ros.transformer"
CLS = "Transformer"
PK = "rigid_body_motion."

KIND = {
    "transform_vector": ("do_transform_vector3", "Vector3Stamped",
                         (("v", "vector", "xyz"),)),
    "transform_point": ("do_transform_point", "PointStamped",
                        (("p", "point", "xyz"),)),
    "transform_quaternion": ("do_transform_pose", "PoseStamped",
                             (("q", "pose.orientation", "wxyz"),)),
    "transform_pose": ("do_transform_pose", "PoseStamped",
                       (("p", "pose.position", "xyz"),
                        ("o", "pose.orientation", "wxyz"))),
}


def check(ctx, rep):
    rep.rule(ASK, "the buffer is asked for the transform from the source to "
                  "the target frame at the given time, the value to be "
                  "transformed is labelled with the source frame, and the "
                  "result is that of the routine for its kind")
    rep.rule(FEED, "every message given to the buffer holds one sample of "
                   "the motion of the frame in its parent, the stamp of that "
                   "sample in seconds and the names of parent and frame, "
                   "with one message for every sample")
    rep.rule(TREE, "every frame of the tree except the root is added, as a "
                   "static transform exactly when it has no time line, and "
                   "the buffer keeps the whole time line")
    for timed in (True, False):
        query(ctx, rep, "can_transform", timed)
        query(ctx, rep, "lookup_transform", timed)
        for m in KIND:
            transform(ctx, rep, m, timed)
    for dt in (True, False):
        moving(ctx, rep, dt)
        cache(ctx, rep, dt)
    static(ctx, rep)
    tree(ctx, rep)
    duration(ctx, rep)


def bench(ctx):
    I = ctx.interp()
    for m in ("lookup_transform", "can_transform", "set_transform",
              "set_transform_static"):
        I.method_hooks[m] = hook(m)
    t = I.call(ctx.at(I, MOD, CLS), [], {})
    I.raises, I.effects, I.calls = [], [], []
    return I, t


def hook(m):
    def f(I, a, k):
        if a[0].op == "inst":
            return NotImplemented
        M_.record(I, m, [I.cur(x) for x in a],
                  {x: I.cur(y) for x, y in k.items()})
        return I.mk("buf:" + m, tuple(a[1:]) + tuple(
            k[x] for x in sorted(k)), tuple(sorted(k)) or None)
    return f


def question(C, I, a, k, target, source, time):
    d = dict(zip(("buffer", "target_frame", "source_frame", "time"), a), **k)
    C.eq(d.get("target_frame", NONE), target, "target frame")
    C.eq(d.get("source_frame", NONE), source, "source frame")
    C.stamp(d.get("time", NONE), time, "time")


def query(ctx, rep, m, timed):
    con = m + ("" if timed else " without time")

    def go():
        I, t = bench(ctx)
        a, b, tm = (sym(x, nonnull=True) for x in ("target", "source",
                                                   "time"))
        r = ctx.run(I, I.getattr(t, m), [a, b] + ([tm] if timed else []), {})
        cs = M_.recorded(I, m)
        C = M_.Check(rep, ASK, con, I, r.loc if r is not None else None)
        C.ob(len(cs) == 1 if cs else None, "asks the buffer",
             f"{len(cs)} calls")
        if len(cs) != 1:
            return
        question(C, I, cs[0][0], cs[0][1], a, b, tm if timed else const(0.0))
        if m == "can_transform":
            n = r
            while n.op in ("builtins.bool", "truth"):
                n = n.args[0]
            C.ob(True if n.op == "buf:can_transform" else False
                 if n.op in ("const", "not") else None, "answer",
                 show(r)[:100])
        else:
            out(C, I, r, "buf:lookup_transform", (
                ("t", "transform.translation", "xyz"),
                ("r", "transform.rotation", "wxyz")))
    ctx.guarded(ASK, con, go)


def out(C, I, r, op, parts):
    """Components of the returned tuples are fields of the answer."""
    for i, (nm, path, names) in enumerate(parts):
        n = r if len(parts) == 1 else I.getitem(r, const(i))
        for j, c in enumerate(names):
            g = I.getitem(n, const(j))
            p, x = [], g
            while x.op == "attr":
                p.insert(0, x.meta)
                x = x.args[0]
            want = path.split(".") + [c]
            C.ob((p == want if p else None) if x.op == op else None,
                 f"{nm}[{j}]", f"{'.'.join(p)} of {show(x)[:60]}")


def transform(ctx, rep, m, timed):
    con = m + ("" if timed else " without time")
    fn, cls, parts = KIND[m]

    def go():
        I, t = bench(ctx)
        done = []

        def do(name):
            def f(I, a, k):
                done.append(name)
                M_.record(I, "do", [I.cur(x) for x in a], k)
                return I.mk("done:" + name, tuple(I.cur(x) for x in a))
            return f
        for x in ("do_transform_vector3", "do_transform_point",
                  "do_transform_pose", "do_transform_wrench"):
            for md in ("tf2_geometry_msgs.",
                       "tf2_geometry_msgs.tf2_geometry_msgs."):
                I.extern_hooks[md + x] = do(x)
        vals = [sym(p[0], nonnull=True) for p in parts]
        a, b, tm = (sym(x, nonnull=True) for x in ("target", "source",
                                                   "time"))
        r = ctx.run(I, I.getattr(t, m), vals + [a, b] + (
            [tm] if timed else []), {})
        C = M_.Check(rep, ASK, con, I, r.loc if r is not None else None)
        cs = M_.recorded(I, "lookup_transform")
        C.ob(len(cs) == 1 if cs else None, "asks the buffer",
             f"{len(cs)} calls")
        if len(cs) == 1:
            question(C, I, cs[0][0], cs[0][1], a, b,
                     tm if timed else const(0.0))
        ds = M_.recorded(I, "do")
        C.ob(done == [fn] if done else None, "transformed as",
             ", ".join(done))
        if len(ds) != 1 or done != [fn]:
            return
        d = dict(zip(("msg", "transform"), ds[0][0]), **ds[0][1])
        msg, tf = d["msg"], d["transform"]
        C.ob(tf.op == "buf:lookup_transform" or None, "with the transform "
             "looked up", show(tf)[:60])
        C.ob(M_.ctor(M_.base(msg)) == cls if M_.ctor(M_.base(msg)) else None,
             "message type", str(M_.ctor(M_.base(msg))))
        C.text(M_.field(I, msg, "header.frame_id"), b, "frame of the value")
        C.stamp(M_.field(I, msg, "header.stamp"), tm if timed
                else const(0.0), "time of the value")
        for s, (nm, path, names) in zip(vals, parts):
            (C.vec if names == "xyz" else C.quat)(M_.field(I, msg, path), s,
                                                  path)
        out(C, I, r, "done:" + fn, parts)
    ctx.guarded(ASK, con, go)


def moving(ctx, rep, dt):
    con = "set_transforms" + ("" if dt else " numeric stamps")

    def go():
        I, t = bench(ctx)
        f = ctx.frame("f")
        ctx.run(I, I.getattr(t, "set_transforms"), [f], {})
        cs = [c for c in M_.recorded(I, "set_transform") if M_.reached(
            c[2], lambda c: M_.kind_test(c, dt)) is not False]
        C = M_.Check(rep, FEED, con, I)
        C.ob(len(cs) == 1 if cs else None, "transforms are added",
             f"{len(cs)} call sites")
        if not cs:
            return
        a, k, pc, loc = cs[0]
        C.loc = loc
        d = dict(zip(("buffer", "transform"), a), **k)
        msg = d["transform"]
        names(C, I, msg, f)
        tok = None
        for path, attr, cn in (
                ("transform.translation", "translation", "xyz"),
                ("transform.rotation", "rotation", "wxyz")):
            src = I.getattr(f, attr)
            for i, c in enumerate(cn):
                n = M_.peel(M_.field(I, msg, f"{path}.{c}"))
                if n.op != "item" or n.args[1].op != "const":
                    C.ob(None, f"{attr}.{c}", show(n)[:100])
                    continue
                C.ob(cval(n.args[1]) == i, f"{attr}.{c}",
                     f"component {cval(n.args[1])}")
                s = M_.sample(n.args[0])
                if s is None:
                    C.ob(None, f"{attr}.{c} sample", show(n)[:100])
                    continue
                part = s[0].op == "item" and s[0].args[0].k == src.k and \
                    s[0].args[1].op == "slice" and any(
                        not is_none(x) for x in s[0].args[1].args[:2])
                C.ob(False if part else s[0].k == src.k
                     if M_.known(s[0]) else None,
                     f"{attr}.{c} source", show(s[0])[:80])
                tok = tok or s[1]
                C.ob(s[1] == tok, f"{attr}.{c} sample", f"{s[1]}")
        if tok is not None:
            C.ob(True if tok[0] == "loop" else False, "one message for "
                 "every sample", f"{tok[0]}")
            C.ob(*whole(C, I, msg, f))
        s = M_.stamp_secs(M_.field(I, msg, "header.stamp"))
        if s is None:
            C.stamp(M_.field(I, msg, "header.stamp"), const("stamp"),
                    "time stamp")
        else:
            v, txt = M_.seconds(s, I.getattr(f, "timestamps"), tok, dt)
            C.ob(v, "time stamp", txt)
    ctx.guarded(FEED, con, go)


def whole(C, I, msg, f):
    """Index loops run over all samples."""
    n = M_.peel(M_.field(I, msg, "transform.translation.x"))
    b = n.args[0]
    what = "all samples"
    if b.op == "elem":
        return True, what, "loop over the array"
    i = b.args[1] if b.op == "item" else None
    if i is not None and i.op == "index_of":
        mine = any(M_.hold(i.args[1]).k == I.getattr(f, x).k
                   for x in ("timestamps", "translation", "rotation"))
        m = M_.moment(i.args[1], True, True)
        mine = mine or isinstance(m, M_.Moment) and m.index is None and \
            m.src.k == I.getattr(f, "timestamps").k
        return mine or None, what, show(i.args[1])[:80]
    if i is None or i.op != "elem":
        return None, what, show(b)[:80]
    r = i.args[0]
    if r.op in ("range", "builtins.range"):
        a = list(r.args)
        stop = a[0] if len(a) == 1 else a[1]
        first = const(0) if len(a) == 1 else a[0]
        ok = stop.op == "builtins.len" and any(
            M_.hold(stop.args[0]).k == I.getattr(f, x).k
            for x in ("timestamps", "translation", "rotation"))
        if ok and cval(first) == 0 if first.op == "const" else None:
            return True if len(a) < 3 or cval(a[2]) == 1 else False, what, \
                show(r)
        return (False if ok and first.op == "const" else None), what, show(r)
    return None, what, show(r)[:80]


def names(C, I, msg, f):
    C.text(M_.field(I, msg, "header.frame_id"),
           I.getattr(I.getattr(f, "parent"), "name"), "frame_id is the "
           "parent")
    C.text(M_.field(I, msg, "child_frame_id"), I.getattr(f, "name"),
           "child is the frame")


def static(ctx, rep):
    con = "set_transform_static"

    def go():
        I, t = bench(ctx)
        f = ctx.frame("f")
        ctx.run(I, I.getattr(t, con), [f], {})
        cs = M_.recorded(I, con)
        C = M_.Check(rep, FEED, con, I)
        C.ob(len(cs) == 1 if cs else None, "transform is added",
             f"{len(cs)} call sites")
        if not cs:
            return
        a, k, pc, C.loc = cs[0]
        msg = dict(zip(("buffer", "transform"), a), **k)["transform"]
        names(C, I, msg, f)
        C.vec(M_.field(I, msg, "transform.translation"),
              I.getattr(f, "translation"), "translation")
        C.quat(M_.field(I, msg, "transform.rotation"),
               I.getattr(f, "rotation"), "rotation")
    ctx.guarded(FEED, con, go)


def tree(ctx, rep):
    con = "from_reference_frame"

    def go():
        I = ctx.interp()
        Q = f"{PK}{MOD}.{CLS}."
        for m in ("set_transforms", "set_transform_static"):
            I.overrides[Q + m] = lambda I, a, k, m=m: (
                M_.record(I, m, a, k), NONE)[1]
        f = ctx.frame("f")
        I.calls = []
        r = ctx.run(I, I.getattr(ctx.at(I, MOD, CLS), con), [f], {})
        C = M_.Check(rep, TREE, con, I, r.loc if r is not None else None)
        cs = {m: M_.recorded(I, m) for m in ("set_transforms",
                                             "set_transform_static")}
        if not any(cs.values()):
            C.ob(None, "frames are added", "no call found")
            return
        root = I.getattr(f, "root")
        for m, x in cs.items():
            for a, k, pc, loc in x:
                d = dict(zip(("self", "reference_frame"), a), **k)
                n = d["reference_frame"]
                src = n.args[0] if n.op == "elem" else None
                ok = None
                if src is not None and src.op.startswith("anytree.") and \
                        src.op.endswith("Iter"):
                    kw = src.meta if isinstance(src.meta, tuple) else ()
                    lim = dict(zip(kw, src.args[len(src.args) -
                                                len(kw):])).get("maxlevel")
                    ok = src.args[0].k == root.k if len(src.args) == 1 \
                        else False if lim is not None and \
                        lim.op == "const" and not is_none(lim) else None
                elif src is not None and src.op == "attr" and \
                        src.meta == "descendants":
                    ok = src.args[0].k == root.k
                elif src is not None and src.op == "attr" and \
                        src.meta in ("children", "leaves", "siblings",
                                     "ancestors", "path"):
                    ok = False
                C.ob(ok, f"{m}: frames of the whole tree", show(n)[:80],
                     loc)
        for par in (False, True):
            for ts in (False, True):
                def hyp(c):
                    if c.op == "not":
                        d = hyp(c.args[0])
                        return None if d is None else not d
                    if c.op == "isnone" and c.args[0].op == "attr" and \
                            c.args[0].args[0].op == "elem":
                        return {"parent": not par,
                                "timestamps": not ts}.get(c.args[0].meta)
                    if c.op == "attr" and c.args[0].op == "elem" and \
                            c.meta == "is_root":
                        return not par
                    if c.op == "isinst":
                        return True
                    if c.op == "cmp" and any(a.op == "builtins.len"
                                             for a in c.args):
                        return None
                    return None
                got = {m: {M_.reached(x[2], hyp) for x in v}
                       for m, v in cs.items()}
                for m, v in got.items():
                    src = [x[0][-1] for x in cs[m]]
                    if not par and src and all(
                            s.op == "elem" and s.args[0].op == "attr"
                            for s in src):
                        continue    # descendants: the root is not visited
                    want = par and ts == (m == "set_transforms")
                    if want:
                        ok = True if v - {False} else False
                    else:
                        ok = v <= {False}
                    C.ob(ok, f"{m} for a frame with"
                         f"{'' if par else 'out'} a parent and with"
                         f"{'' if ts else 'out'} a time line",
                         "called" if v - {False} else "not called")
    ctx.guarded(TREE, con, go)


def cache(ctx, rep, dt):
    con = "from_reference_frame: cache time" + ("" if dt else
                                                " numeric stamps")

    def go():
        I = ctx.interp()
        Q = f"{PK}{MOD}.{CLS}."
        for m in ("set_transforms", "set_transform_static"):
            I.overrides[Q + m] = lambda I, a, k: NONE
        I.extern_hooks["rospy.Duration.from_sec"] = lambda I, a, k: (
            M_.record(I, "duration", a, k), I.mk("duration", tuple(a)))[1]
        f = ctx.frame("f")
        I.calls = []
        ctx.run(I, I.getattr(ctx.at(I, MOD, CLS), "from_reference_frame"),
                [f], {})
        C = M_.Check(rep, TREE, con, I)
        ds = M_.recorded(I, "duration")
        if not ds:
            C.ob(None, "set", "no duration")
        for a, k, pc, loc in ds:
            span(C, I, a[0], f, dt, loc)
    ctx.guarded(TREE, con, go)


def span(C, I, n, f, dt, loc):
    if n.op != "binop" or n.meta != "-":
        e = element(n.args[0]) if n.args else None
        each = e is not None and e[0].op == "binop" and e[0].meta == "-" \
            and all(isinstance(M_.moment(x, dt), M_.Moment)
                    for x in e[0].args)
        C.ob(False if each else None, "latest end minus earliest start",
             "of the spans of single frames" if each else show(n)[:80], loc)
        return
    for x, which, i in ((n.args[0], "max", -1), (n.args[1], "min", 0)):
        what = "latest end" if which == "max" else "earliest start"
        fn = x.op.rsplit(".", 1)[-1]
        fn = {"amax": "max", "amin": "min", "nanmax": "max",
              "nanmin": "min"}.get(fn, fn)
        if fn not in ("max", "min"):
            C.ob(None, what, show(x)[:80], loc)
            continue
        e = element(x.args[0])
        if e is None:
            C.ob(None, what, show(x)[:160], loc)
            continue
        m = M_.moment(e[0], dt)
        if not isinstance(m, M_.Moment):
            C.ob(False if m else None, what, m or show(e[0])[:100], loc)
            continue
        good = fn == which and m.index == ("at", const(i).k) and \
            m.src.op == "attr" and m.src.meta == "timestamps"
        C.ob(good, what, f"{fn} of sample "
             f"{'0' if m.index == ('at', const(0).k) else '-1' if m.index == ('at', const(-1).k) else '?'}"
             f" of {show(m.src)[:60]}", loc)
        C.ob(m.scale is not None and abs(m.scale - 1) < 1e-9,
             f"{what} in seconds", f"scale {m.scale}", loc)


def element(n):
    """(expression of one element, condition) of a list built by a loop."""
    if n.op in ("builtins.list", "builtins.tuple", "numpy.array",
                "numpy.asarray") and n.args:
        return element(n.args[0])
    if n.op in ("list", "tuple") and len(n.args) == 1 and \
            n.args[0].op == "mapseg":
        s = n.args[0]
        return s.args[1], (s.args[2] if len(s.args) > 2 else None)
    if n.op == "binop" and n.meta == "-":
        es = [element(x) for x in n.args]
        if None not in es:
            return N("binop", tuple(e[0] for e in es), "-"), es[0][1]
    if n.op == "item" and n.args[1].op == "const":
        # one column of a transposed list of tuples
        b = n.args[0]
        e = element(b)
        if e is not None and e[0].op == "tuple" and len(e[0].args) == 1 and \
                e[0].args[0].op == "star" and \
                e[0].args[0].args[0].op == "elem" and \
                e[0].args[0].args[0].args[0].op == "star":
            rows = element(e[0].args[0].args[0].args[0].args[0])
            if rows is not None and rows[0].op == "tuple" and \
                    isinstance(cval(n.args[1]), int) and \
                    -len(rows[0].args) <= cval(n.args[1]) < \
                    len(rows[0].args):
                return rows[0].args[cval(n.args[1])], rows[1]
    return None


def duration(ctx, rep):
    con = "Transformer(cache_time)"
    for given in (True, False):
        def go(given=given):
            I = ctx.interp()
            bufs = []
            I.extern_hooks["tf2_ros.Buffer"] = lambda I, a, k: (
                bufs.append((list(a), dict(k), I.st.pc)),
                I.mk("buffer", ()))[1]
            s = sym("cache", nonnull=True)
            I.call(ctx.at(I, MOD, CLS), [s] if given else [], {})
            C = M_.Check(rep, TREE, con + ("" if given else " default"), I)
            C.ob(len(bufs) == 1 if bufs else None, "one buffer",
                 f"{len(bufs)}")
            for a, k, pc in bufs:
                c = dict(zip(("cache_time", "debug"), a), **k).get(
                    "cache_time", NONE)
                if not given:
                    C.ob(is_none(c) or None, "default cache time",
                         show(c)[:80])
                elif c.op == "rospy.Duration.from_sec" or \
                        c.op == "rospy.Duration":
                    C.eq(c.args[0], s, "cache time")
                else:
                    C.ob(False if is_none(c) else None, "cache time",
                         show(c)[:80])
        ctx.guarded(TREE, con, go)


