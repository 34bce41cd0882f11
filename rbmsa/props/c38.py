"""C38: the transform broadcaster publishes the requested sample."""
from ..ctx import NONE, TRUE, N, const, cval, is_none, show, sym
from . import rosmsg as M_

PUB = "published"
LOOK = "looked-up"
SUB = "subscription"
MOD = "ros.transformer"
CLS = "ReferenceFrameTransformBroadcaster"


def check(ctx, rep):
    rep.rule(PUB, "the fields of every published message are those of one "
                  "sample (the requested one) of the looked-up motion, its "
                  "stamp in seconds and the names of the frames")
    rep.rule(LOOK, "the motion published is looked up between the frame and "
                   "the base, the twist represented in the frame, with the "
                   "given filter options")
    rep.rule(SUB, "an incoming transform of the frame listened to leads to "
                  "one publication of the sample nearest to its stamp")
    for idx in ("given", "zero", "default"):
        for dt in (True, False):
            publish(ctx, rep, idx, dt)
    publish(ctx, rep, "static", True)
    for base in (True, False):
        lookups(ctx, rep, base)
    for sub in ("base", "other"):
        for static in (False, True):
            incoming(ctx, rep, sub, static)


class Bench:
    def __init__(self, ctx, static=False, base=True, **kw):
        self.ctx = ctx
        I = self.I = ctx.interp()
        self.f = ctx.frame("f")
        self.b = ctx.frame("base") if base else NONE
        self.tr, self.rot = (sym(x, nonnull=True, kind="ndarray")
                             for x in ("tr", "rot"))
        self.ts = NONE if static else sym("ts", nonnull=True, kind="ndarray")
        self.lin, self.ang = (sym(x, nonnull=True, kind="ndarray")
                              for x in ("lin", "ang"))
        self.looked = []
        self.sent = []
        R = ctx.C.qualname + "."
        I.overrides[R + "lookup_transform"] = self.lookup("transform", (
            self.tr, self.rot, self.ts))
        I.overrides[R + "lookup_twist"] = self.lookup("twist", (
            self.lin, self.ang))
        for m in ("sendTransform", "publish"):
            I.method_hooks[m] = self.send(m)
        I.extern_hooks["rospy.Subscriber"] = self.subscribe
        kw = {"publish_pose": TRUE, "publish_twist": NONE if static
              else TRUE, **kw}
        C = ctx.at(I, MOD, CLS)
        self.o = I.call(C, [self.f] + ([self.b] if base else []), kw)
        I.raises, I.effects = [], []

    def subscribe(self, I, a, k):
        return sym("subscriber", nonnull=True)

    def forget(self, *names):
        """The state these attributes are in does not matter."""
        for a in names:
            self.I._set_attr1(self.I.cur(self.o), a, sym("own_" + a),
                              False)

    def lookup(self, kind, vals):
        def f(I, a, k):
            self.looked.append((kind, list(a), dict(k), I.st.pc))
            if kind == "twist" and "return_timestamps" in k and \
                    not is_none(k["return_timestamps"]):
                return I.mk("tuple", vals + (self.ts,))
            return I.mk("tuple", vals)
        return f

    def send(self, m):
        def f(I, a, k):
            if a and a[0].op == "inst" or not a[1:]:
                return NotImplemented
            self.sent.append((m, a[0], I.cur(a[1]), I.st.pc, I.loc))
            return NONE
        return f


def publish(ctx, rep, idx, dt):
    con = f"publish({idx})" + ("" if dt else " numeric stamps")

    def go():
        B = Bench(ctx, static=idx == "static")
        I = B.I
        own = sym("own_idx", nonnull=True, kind="int")
        I._set_attr1(B.o, "idx", own, False)
        B.forget("stopped", "_thread", "subscriber", "subscribe_to_frame")
        i = {"given": sym("idx", nonnull=True, kind="int"),
             "zero": const(0)}.get(idx)
        B.sent = []
        r = ctx.run(I, I.getattr(B.o, "publish"), [i] if i is not None
                    else [], {})
        if r is None:
            rep.bad(PUB, con, "every path raises")
            return
        i = i if i is not None else own
        got = {}
        for m, rec, msg, pc, loc in B.sent:
            if M_.reached(pc, lambda c: M_.kind_test(c, dt)) is False:
                continue
            got.setdefault(M_.ctor(M_.base(msg)), []).append((msg, loc))
        kinds = ["TransformStamped", "PoseStamped"] + (
            ["TwistStamped"] if idx != "static" else [])
        for k in kinds:
            ms = got.get(k, [])
            rep.check(len(ms) == 1 if None not in got else None, PUB,
                      f"{con}: {k}", f"{len(ms)} messages sent")
            for msg, loc in ms:
                message(B, rep, con, k, msg, i if idx != "static" else None,
                        dt, loc)
    ctx.guarded(PUB, con, go)


def message(B, rep, con, kind, msg, i, dt, loc):
    I = B.I
    C = M_.Check(rep, PUB, f"{con}: {kind}", I, loc)

    def pick(a):
        return a if i is None else I.getitem(a, i)
    fd = lambda p: M_.field(I, msg, p)      # noqa: E731
    nf, nb = I.getattr(B.f, "name"), I.getattr(B.b, "name")
    if kind == "TransformStamped":
        C.text(fd("header.frame_id"), nb, "frame_id is the base")
        C.text(fd("child_frame_id"), nf, "child is the frame")
        C.vec(fd("transform.translation"), pick(B.tr), "translation")
        C.quat(fd("transform.rotation"), pick(B.rot), "rotation")
    elif kind == "PoseStamped":
        C.text(fd("header.frame_id"), nb, "frame_id is the base")
        C.vec(fd("pose.position"), pick(B.tr), "position")
        C.quat(fd("pose.orientation"), pick(B.rot), "orientation")
    else:
        C.text(fd("header.frame_id"), nf, "frame_id is the frame")
        C.vec(fd("twist.linear"), pick(B.lin), "linear")
        C.vec(fd("twist.angular"), pick(B.ang), "angular")
    st = fd("header.stamp")
    if i is None:
        C.stamp(st, const(0.0), "time stamp")
        return
    s = M_.stamp_secs(st)
    if s is None:
        C.stamp(st, const("stamp"), "time stamp")
        return
    C.ob(*_swap(M_.seconds(s, B.ts, M_.token(i), dt), "time stamp"))


def _swap(r, what):
    return r[0], what, r[1]


def lookups(ctx, rep, base):
    con = f"{CLS}({'base given' if base else 'default base'})"

    def go():
        cut, thr = (sym(
            x, nonnull=True, kind="float") for x in ("cutoff", "thr"))
        B = Bench(ctx, base=base, twist_cutoff=cut, twist_outlier_thresh=thr)
        I = B.I
        want = B.b if base else I.getattr(B.f, "parent")
        C = M_.Check(rep, LOOK, con, I)
        tw = [x for x in B.looked if x[0] == "twist"]
        tf = [x for x in B.looked if x[0] == "transform"]
        C.ob(None if not tf else True, "transform looked up", len(tf))
        for _, a, k, pc in tf:
            a = dict(zip(("self", "to_frame"), a), **k)
            C.eq(a["self"], B.f, "transform of")
            C.eq(I.cur(a.get("to_frame", NONE)), want, "transform to")
        C.ob(None if not tw else True, "twist looked up", len(tw))
        for _, a, k, pc in tw:
            a = dict(zip(("self", "reference", "represent_in",
                          "outlier_thresh", "cutoff"), a), **k)
            C.eq(a["self"], B.f, "twist of")
            ref = a.get("reference", NONE)
            if is_none(ref) and not base:
                C.ob(True, "twist reference", "default: the parent")
            else:
                C.eq(ref, want, "twist reference")
            C.eq(a.get("represent_in", NONE), B.f, "twist represented in")
            C.eq(a.get("cutoff", NONE), cut, "twist cutoff")
            C.eq(a.get("outlier_thresh", NONE), thr, "twist outliers")
    ctx.guarded(LOOK, con, go)


def incoming(ctx, rep, sub, static):
    con = f"incoming transform, subscribe={'True' if sub == 'base' else 'name'}"
    con += " static" if static else ""

    def go():
        name = sym("listen", nonnull=True, kind="str")
        B = Bench(ctx, static=static, subscribe=TRUE if sub == "base"
                  else name)
        I = B.I
        want = I.getattr(B.b, "name") if sub == "base" else name
        msg = sym("msg", nonnull=True)
        I.overrides[f"{PK}{MOD}.{CLS}.publish"] = lambda I, a, k: (
            M_.record(I, "publish", a, k), NONE)[1]
        I.calls = []
        ctx.run(I, I.getattr(B.o, "handle_incoming_msg"), [msg], {})
        calls = M_.recorded(I, "publish")
        C = M_.Check(rep, SUB, con, I)

        def hyp(match, dt):
            def h(c):
                if c.op == "cmp" and c.meta == "==":
                    a, b = c.args
                    for x, y in ((a, b), (b, a)):
                        if y.op == "attr" and y.meta == "child_frame_id":
                            x = I.cur(x)
                            if x.k == want.k:
                                return match
                            if x.op == "phi":
                                # isinstance(subscribe, str)
                                w = [q for q in x.args[1:] if q.k == want.k]
                                return match if w else None
                            return "other"
                if c.op == "isnone":
                    return None
                if c.op == "not":
                    d = h(c.args[0])
                    return d if d in (None, "other") else not d
                return M_.kind_test(c, dt)
            return h
        for dt in ((True,) if static else (True, False)):
            h = hyp(True, dt)
            live = [x for x in calls if M_.reached(x[2], h) is not False]
            wrong = [x for x in calls for c, p in x[2] if h(c) == "other"]
            if wrong:
                C.ob(False, "listens to the given frame", "compares with "
                     "another frame", wrong[0][3])
                return
            C.ob(len(live) == 1 if calls else False, "published once "
                 "per matching transform" + ("" if dt else
                                             " (numeric stamps)"),
                 f"{len(live)} publications")
            for bpc, bloc in I.breaks:
                if any(c.op == "inloop" for c, p in bpc):
                    C.ob(False if M_.reached(bpc, h) else None, "every "
                         "transform of the message is looked at",
                         "the loop is left early", bloc)
            for a, k, pc, loc in live:
                for c, p in pc:
                    if compares(c, B):
                        C.ob(False, "published whichever sample it is",
                             show(c)[:100], loc)
                cond = any(h(c) is not None and any(
                    y.op == "attr" and y.meta == "child_frame_id"
                    for y in _deep(c)) for c, p in pc)
                C.ob(cond, "only for the frame listened to",
                     "condition on child_frame_id" if cond else
                     "no condition on the frame", loc)
                if static:
                    continue
                a = dict(zip(("self", "idx"), a), **k)
                nearest(C, I, B, a.get("idx", NONE), dt, loc)
    ctx.guarded(SUB, con, go)


def compares(c, B):
    """Does the condition compare the position found with a state?"""
    while c.op in ("not", "truth"):
        c = c.args[0]
    if c.op != "cmp" or c.meta != "==":
        return False
    f = [any(x.op == "m:get_indexer" for x in _deep(a)) for a in c.args]
    other = c.args[f.index(False)] if sorted(f) == [False, True] else None
    return other is not None and other.op in ("const", "in", "attr", "sym",
                                              "elem") and not (
        other.op == "const" and cval(other) == -1)


def _deep(c):
    yield c
    for a in c.args:
        if isinstance(a, N):
            yield from _deep(a)


PK = "rigid_body_motion."


def nearest(C, I, B, i, dt, loc):
    """idx is the position of the stamp nearest to that of the message."""
    tag = "" if dt else " (numeric stamps)"
    if is_none(i) or i.op == "const":
        C.ob(False, "sample" + tag, f"publishes sample {show(i)}", loc)
        return
    n = i
    if n.op in ("builtins.int", "m:item"):
        n = n.args[0]
    if n.op == "item" and n.args[1].op == "const" and cval(
            n.args[1]) == 0:
        n = n.args[0]
    elif n.op == "m:get_indexer":
        C.ob(False, "one sample" + tag, "publishes an array of samples", loc)
    if n.op == "m:get_indexer":
        kw = n.meta if isinstance(n.meta, tuple) else ()
        k = len(n.args) - len(kw)
        d = dict(zip(("self", "target", "method"), n.args[:k]))
        d.update(zip(kw, n.args[k:]))
        C.ob(M_.hold(d["self"]).k == B.ts.k, "looks among the stamps" + tag,
             show(d["self"])[:80], loc)
        m = d.get("method")
        C.ob(m is not None and m.op == "const" and cval(m) == "nearest",
             "nearest stamp" + tag, show(m) if m is not None else "exact",
             loc)
        t = d["target"]
        t = t.args[0] if t.op in ("list", "tuple") and len(t.args) == 1 \
            else t
        when(C, t, dt, tag, loc)
    else:
        C.ob(None, "nearest stamp" + tag, show(n)[:120], loc)


def coarse(t):
    """A stamp rounded to seconds or less precisely than it is given."""
    if t.op in ("builtins.int", "builtins.round", "numpy.round",
                "numpy.floor", "math.floor", "numpy.ceil", "math.ceil",
                "m:to_nsec"):
        n = t.args[0]
        return n.op in ("rospy.Time.to_sec", "m:to_sec",
                        "rospy.rostime.Time.to_sec") and (
            len(t.args) < 2 or t.args[1].op == "const" and
            isinstance(cval(t.args[1]), int) and cval(t.args[1]) < 9 or
            is_none(t.args[1]))
    return t.op == "attr" and t.meta in ("secs", "nsecs") and \
        t.args[0].op == "attr" and t.args[0].meta == "stamp"


def when(C, t, dt, tag, loc):
    """The stamp of the message, in the type of the stamps."""
    while t.op == "phi":
        d = M_.kind_test(t.args[0], dt)
        if d is None:
            C.ob(None, "stamp of the message" + tag, show(t)[:100], loc)
            return
        t = t.args[1 if d else 2]
    if t.op == "pandas.to_datetime" or t.op == "pandas.Timestamp":
        if not dt:
            C.ob(False, "stamp of the message" + tag,
                 "a datetime among numeric stamps", loc)
            return
        kw = t.meta if isinstance(t.meta, tuple) else ()
        u = dict(zip(kw, t.args[len(t.args) - len(kw):])).get("unit")
        C.ob(u is not None and u.op == "const" and cval(u) == "s" and
             t.args[0].op != "attr" or None if u is None else
             cval(u) == "s", "seconds are read as seconds" + tag,
             show(u) if u is not None else "no unit", loc)
        t = t.args[0]
    elif dt:
        C.ob(None, "stamp of the message" + tag, show(t)[:100], loc)
        return
    if t.op in ("rospy.Time.to_sec", "m:to_sec", "rospy.rostime.Time.to_sec"):
        t = t.args[0]
        C.ob(t.op == "attr" and t.meta == "stamp", "stamp of the message"
             + tag, show(t)[:80], loc)
    else:
        C.ob(False if coarse(t) else None, "stamp of the message" + tag,
             show(t)[:100], loc)
