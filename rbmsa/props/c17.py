"""C17: ROS messages carry what they were made from."""
from ..ctx import FALSE, TRUE, const, show, sym
from . import rosmsg as M_

RULE = "message"
UNPACK = "unpack"
LENS = {("t",): 3, ("r",): 4, ("p",): 3, ("o",): 4, ("v",): 3, ("w",): 3,
        ("q",): 4, ("rf", "translation"): 3, ("rf", "rotation"): 4}

MAKE = (
    # function, class, payload arguments -> fields
    ("make_transform_msg", "TransformStamped",
     (("t", "transform.translation", "vec"),
      ("r", "transform.rotation", "quat")), True),
    ("make_pose_msg", "PoseStamped",
     (("p", "pose.position", "vec"), ("o", "pose.orientation", "quat")),
     False),
    ("make_twist_msg", "TwistStamped",
     (("v", "twist.linear", "vec"), ("w", "twist.angular", "vec")), False),
    ("make_vector_msg", "Vector3Stamped", (("v", "vector", "vec"),), False),
    ("make_point_msg", "PointStamped", (("p", "point", "vec"),), False),
    ("make_quaternion_msg", "QuaternionStamped",
     (("q", "quaternion", "quat"),), False),
)


def check(ctx, rep):
    rep.rule(RULE, "every field of the constructed message, read off its "
                   "construction, is the argument or component of an "
                   "argument specified for it (quaternion arrays are w, x, "
                   "y, z)")
    rep.rule(UNPACK, "the returned tuple holds the fields of the message in "
                     "the order of the arrays of the package")
    for fn, cls, parts, child in MAKE:
        for timed in (True, False):
            make(ctx, rep, fn, cls, parts, child, timed)
        un = fn.replace("make_", "unpack_")
        for stamped in (True, False, None):
            unpack(ctx, rep, un, parts, stamped)
        roundtrip(ctx, rep, fn, un, parts, child)
    static(ctx, rep)


def messages(ctx, rep, con, rule, I, r, cls, loc=None):
    I.ended = True
    c = M_.ctor(M_.base(r))
    C = M_.Check(rep, rule, con, I, r.loc, LENS)
    C.ob(None if c is None else c == cls, "message type", c or show(r)[:80])
    return C if c is not None else None


def make(ctx, rep, fn, cls, parts, child, timed):
    con = fn + ("" if timed else " without time")

    def go():
        I = ctx.interp()
        a = [sym(p[0], nonnull=True) for p in parts]
        fid, cid = sym("frame_id", kind="str"), sym("child", kind="str")
        t = sym("time", nonnull=True, kind="float")
        r = ctx.run(I, ctx.at(I, "ros.msg", fn),
                    a + [fid] + ([cid] if child else []),
                    {"time": t} if timed else {})
        if r is None:
            rep.bad(RULE, con, "every path raises")
            return
        C = messages(ctx, rep, con, RULE, I, r, cls)
        if C is None:
            return
        C.stamp(M_.field(I, r, "header.stamp"),
                t if timed else const(0.0), "time stamp")
        C.text(M_.field(I, r, "header.frame_id"), fid, "frame_id")
        if child:
            C.text(M_.field(I, r, "child_frame_id"), cid, "child_frame_id")
        for s, (nm, path, kind) in zip(a, parts):
            getattr(C, kind)(M_.field(I, r, path), s, path)
    ctx.guarded(RULE, con, go)


def unpack(ctx, rep, fn, parts, stamped):
    con = f"{fn}" + ("" if stamped is None else f"(stamped={stamped})")

    def go():
        I = ctx.interp()
        msg = sym("msg", nonnull=True)
        kw = {} if stamped is None else {"stamped": TRUE if stamped
                                         else FALSE}
        r = ctx.run(I, ctx.at(I, "ros.msg", fn), [msg], kw)
        if r is None:
            rep.bad(UNPACK, con, "every path raises")
            return
        C = M_.Check(rep, UNPACK, con, I, r.loc)
        for i, (nm, path, kind) in enumerate(parts):
            n = r if len(parts) == 1 else I.getitem(r, const(i))
            src = msg
            path = path.split(".")
            if not stamped:
                path = path[1:]
            for p in path:
                src = I.getattr(src, p)
            want = [I.getattr(src, c) for c in
                    ("xyz" if kind == "vec" else "wxyz")]
            values(C, I, n, want, nm)
    ctx.guarded(UNPACK, con, go)


def values(C, I, n, want, nm):
    its = I.static_items(n)
    if its is not None:
        C.ob(len(its) == len(want), f"{nm}: number of components",
             str(len(its)))
    for i, w in enumerate(want):
        g = its[i] if its is not None and i < len(its) else \
            I.getitem(n, const(i))
        C.eq(g, w, f"{nm}[{i}]")


def roundtrip(ctx, rep, fn, un, parts, child):
    con = f"{un}({fn}(...))"

    def go():
        I = ctx.interp()
        a = [sym(p[0], nonnull=True) for p in parts]
        fid = [sym("frame_id")] + ([sym("child")] if child else [])
        m = ctx.run(I, ctx.at(I, "ros.msg", fn), a + fid, {})
        r = ctx.run(I, ctx.at(I, "ros.msg", un), [m], {"stamped": TRUE})
        C = M_.Check(rep, UNPACK, con, I, r.loc, LENS)
        for i, (s, p) in enumerate(zip(a, parts)):
            n = r if len(parts) == 1 else I.getitem(r, const(i))
            for j in range(3 if p[2] == "vec" else 4):
                g = I.getitem(n, const(j))
                if g.op == "attr":
                    g = M_.field(I, g.args[0], g.meta)
                C.eq(g, I.getitem(s, const(j)), f"{p[0]}[{j}]")
    ctx.guarded(UNPACK, con, go)


def static(ctx, rep):
    con = "static_rf_to_transform_msg"
    for timed in (True, False):
        def go(timed=timed):
            I = ctx.interp()
            rf = ctx.frame("rf")
            par = ctx.frame("par")
            t = sym("time", kind="float")
            r = ctx.run(I, ctx.at(I, "ros.msg", con), [rf],
                        {"time": t} if timed else {})
            C = messages(ctx, rep, con, RULE, I, r, "TransformStamped")
            if C is None:
                return
            C.stamp(M_.field(I, r, "header.stamp"), t if timed
                    else const(0.0), "time stamp")
            C.text(M_.field(I, r, "header.frame_id"),
                   I.getattr(I.getattr(rf, "parent"), "name"), "frame_id")
            C.text(M_.field(I, r, "child_frame_id"), I.getattr(rf, "name"),
                   "child_frame_id")
            C.vec(M_.field(I, r, "transform.translation"),
                  I.getattr(rf, "translation"), "translation")
            C.quat(M_.field(I, r, "transform.rotation"),
                   I.getattr(rf, "rotation"), "rotation")
            del par
        ctx.guarded(RULE, con, go)
