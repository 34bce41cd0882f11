"""C25: a publisher that spins publishes in pace until it is stopped."""
from ..ctx import FALSE, NONE, TRUE, N, const, cval, is_none, show, sym
from ..ir import walk
from . import rosmsg as M_
from .c38 import Bench as TFBench

LOOP = "loop"
STOP = "stopping"
THREAD = "thread"
NEXT = "next-sample"
PACE = "pace"
INIT = "initialised"
PKT, PKV = "rigid_body_motion.ros.transformer.", \
    "rigid_body_motion.ros.visualization."


def check(ctx, rep):
    rep.rule(LOOP, "spin publishes in every pass of a loop that it only "
                   "leaves when stopped or when ROS shuts down")
    rep.rule(STOP, "every pass of the loop tests the flag that stop() sets "
                   "and the shutdown of ROS and leaves when one is set; the "
                   "flag is reset before the loop or its thread starts and "
                   "not after")
    rep.rule(THREAD, "without block the loop runs in one thread, started and "
                     "returned; with block in the call")
    rep.rule(NEXT, "a pass publishes the current sample and goes on to the "
                   "next, after the last to the first")
    rep.rule(PACE, "a pass sleeps once, the seconds between the next sample "
                   "and the one before it, or the given interval")
    rep.rule(INIT, "when the subscription is created all attributes that the "
                   "handler reads have their final values")
    for kind in ("tf", "marker", "path"):
        stop(ctx, rep, kind)
        for block in (True, False):
            spin(ctx, rep, kind, block)
            again(ctx, rep, kind, block)
    listening(ctx, rep)
    once(ctx, rep)
    for static in (False, True):
        initialised(ctx, rep, static)


class Bench:
    """A publisher with recorded effects on other threads and ROS."""

    def __init__(self, ctx, kind, **kw):
        self.ctx, self.kind = ctx, kind
        self.threads, self.events = [], []
        self.free = self.value = None
        self.mus = {}       # values carried to the next pass of a loop
        self.interval = sym("publish_interval", nonnull=True, kind="float")
        if kind == "tf":
            self.T = TFBench(ctx, **kw)
            self.I, self.o = self.T.I, self.T.o
            self.hooks()
        else:
            I = self.I = ctx.interp()
            if kind == "marker":
                C = ctx.at(I, "ros.visualization", "BaseMarkerPublisher")
                a = [sym("marker", nonnull=True), sym(
                    "topic", nonnull=True, kind="str")]
            else:
                C = ctx.at(I, "ros.visualization",
                           "ReferenceFrameMarkerPublisher")
                tr = sym("tr", nonnull=True, kind="ndarray")
                I.overrides[ctx.C.qualname + ".lookup_transform"] = \
                    lambda I, a, k: I.mk("tuple", (tr, sym("rot"), sym("ts")))
                a = [ctx.frame("f"), ctx.frame("b")]
            self.hooks()
            self.o = I.call(C, a, {"publish_interval": self.interval})
        I = self.I
        for q in ctx.p.funcs:
            if q.startswith((PKT, PKV)) and q.endswith("Publisher.publish") \
                    or q.endswith("Broadcaster.publish"):
                I.overrides[q] = self.publish
        self.flag()
        I.raises, I.effects, I.calls, I.looplog = [], [], [], []

    def hooks(self):
        I = self.I
        for m in ("rospy.is_shutdown", "rospy.core.is_shutdown"):
            I.extern_hooks[m] = lambda I, a, k: I.vol("<shutdown>")
        for m in ("rospy.sleep", "rospy.timer.sleep", "time.sleep"):
            I.extern_hooks[m] = self.rec("sleep")
        for m in ("rospy.spin", "rospy.core.spin"):
            I.extern_hooks[m] = self.rec("rospy.spin")
        I.extern_hooks["threading.Thread"] = self.thread
        I.extern_hooks["threading.Event"] = self.event
        I.method_hooks["start"] = self.start
        I.method_hooks["join"] = self.join
        for m in ("set", "clear", "is_set", "wait"):
            I.method_hooks[m] = self.on_event(m)

    def rec(self, tag):
        def f(I, a, k):
            M_.record(I, tag, a, k)
            return NONE
        return f

    def publish(self, I, a, k):
        o = I.cur(a[0])
        d = dict(zip(("self", "idx"), a), **k)
        i = d.get("idx", NONE)
        if is_none(i) and o.op == "inst" and "idx" in dict(o.args):
            i = I.getattr(o, "idx")
        M_.record(I, "publish", [i], {})
        return NONE

    # an Event is kept like an attribute of its own
    def event(self, I, a, k):
        n = N("event", (), len(self.events))
        self.events.append(n)
        return n

    def on_event(self, m):
        def f(I, a, k):
            if a[0].op != "event":
                return NotImplemented
            if m in ("set", "clear"):
                I.effect("setattr", a[0], "<set>",
                         (TRUE if m == "set" else FALSE,))
                return NONE
            if m == "wait" and len(a) > 1:
                M_.record(I, "sleep", a[1:], k)
            return I.vol(("<event>", a[0].meta))
        return f

    def thread(self, I, a, k):
        d = dict(zip(("group", "target", "name", "args", "kwargs"), a), **k)
        t = sym(f"thread{len(self.threads)}", nonnull=True)
        self.threads.append([t, d, None])
        return t

    def start(self, I, a, k):
        for t in self.threads:
            if t[0].k == a[0].k:
                M_.record(I, "start", [a[0], const(len(I.effects))], {})
                return NONE
        return NotImplemented

    def join(self, I, a, k):
        if any(t[0].k == a[0].k for t in self.threads):
            M_.record(I, "join", [a[0]], {})
            return NONE
        return NotImplemented

    def flag(self):
        """What stop() sets: {(node, attribute): value}."""
        I = self.I
        I.effects = []
        self.I.st, st = self.I.st.copy(), self.I.st
        for nm, v in I.cur(self.o).args:
            if v.op == "const":
                I._set_attr1(I.cur(self.o), nm, sym("own_" + nm), False)
        r = self.ctx.run(I, I.getattr(I.cur(self.o), "stop"), [], {})
        self.flags = {}
        self.cond = ()
        if r is not None:
            for e in I.effects:
                if e.kind == "setattr" and e.args[0].op == "const" and \
                        isinstance(cval(e.args[0]), bool):
                    self.flags[self.key(e.node, e.how)] = cval(e.args[0])
                    self.cond += e.pc
        I.st = st
        for own, nm in self.flags:
            if own is None:
                I.volatile.add(nm)
        return r

    def key(self, node, nm):
        if node.op == "event":
            return ("event", node.meta)
        return (None, nm) if node.uid == self.o.uid else ("other", nm)

    def truth(self, c, stopped, shut, seq=0):
        """Value of a condition, the flag and the shutdown read in this pass
        being as given; earlier reads are False."""
        if c.k == self.free:
            return self.value
        if c.op == "const":
            return bool(cval(c))
        if c.op in ("not", "unop") and (c.op == "not" or c.meta == "not"):
            d = self.truth(c.args[0], stopped, shut, seq)
            return None if d is None else not d
        if c.op in ("truth", "builtins.bool"):
            return self.truth(c.args[0], stopped, shut, seq)
        if c.op == "cmp" and c.meta in ("is", "==", "is not", "!="):
            a, b = (self.truth(x, stopped, shut, seq)
                    if x.op in ("vol", "const") else None for x in c.args)
            if a is not None and b is not None:
                return (a == b) == (c.meta in ("is", "=="))
        if c.op == "vol":
            nm, n = c.meta
            if n <= seq:        # read before this pass: not set then
                stopped = shut = False
            if nm == "<shutdown>":
                return shut
            k = ("event", nm[1]) if isinstance(nm, tuple) else (None, nm)
            if k in self.flags:
                return self.flags[k] == stopped
            return None
        if c.op == "mu" and c.k in self.mus:
            return self.truth(self.mus[c.k], stopped, shut, seq)
        if c.op in ("phi", "and_", "or_"):
            if c.op == "phi":
                d = self.truth(c.args[0], stopped, shut, seq)
                r = [self.truth(x, stopped, shut, seq) for x in c.args[1:]]
                if d is not None:
                    return r[0] if d else r[1]
                return r[0] if r[0] == r[1] else None
            r = [self.truth(x, stopped, shut, seq) for x in c.args]
            if c.op == "and_":
                return False if False in r else None if None in r else True
            return True if True in r else None if None in r else False
        return None

    def met(self, pc, L, stopped, shut):
        """Is the part of pc after the start of the pass met?"""
        ks = [i for i, (c, p) in enumerate(pc)
              if c.op == "inloop" and c.args[0].k == L["it"].k]
        out = True
        for c, p in pc[ks[-1] + 1 if ks else 0:]:
            if c.op == "inloop":
                continue
            d = self.truth(c, stopped, shut, L["seq"])
            if d is None:
                out = None if out else out
            elif d != p:
                return False
        return out


def stop(ctx, rep, kind):
    con = f"{NAMES[kind]}.stop"

    def go():
        B = Bench(ctx, kind)
        C = M_.Check(rep, STOP, con, B.I)
        C.ob(bool(B.flags), "sets a flag", str(sorted(
            str(k[1]) for k in B.flags)))
        cs = [c for c, p in B.cond if c.op != "inloop"]
        own = {"own_" + str(k[1]) for k in B.flags}
        C.ob(True if not cs else None if any(
            x.op == "in" and x.meta[0] in own for c in cs for x in walk(c))
            or not all(x.op in ("in", "isnone", "not", "truth")
                       for c in cs for x in walk(c)) else False,
             "in every case", "; ".join(show(c)[:60] for c in cs))
    ctx.guarded(STOP, con, go)


NAMES = {"tf": "ReferenceFrameTransformBroadcaster",
         "marker": "BaseMarkerPublisher",
         "path": "ReferenceFrameMarkerPublisher"}


def publishing(I):
    """Passes over loops in which something is published."""
    return [L for L in I.looplog
            if any(c[0] == "rec:publish" for c in L["calls"])]


def spin(ctx, rep, kind, block):
    con = f"{NAMES[kind]}.spin({'block' if block else 'thread'})"

    def go():
        B = Bench(ctx, kind)
        I = B.I
        # stopped before: the flag has any value
        for own, nm in B.flags:
            if own is None:
                I._set_attr1(I.cur(B.o), nm, sym("flag"), False)
        I.effects = []
        r = ctx.run(I, I.getattr(I.cur(B.o), "spin"), [],
                    {"block": TRUE} if block else {})
        C = M_.Check(rep, THREAD, con, I)
        if r is None:
            C.ob(False, "returns", "every path raises")
            return
        started = M_.recorded(I, "start")
        Ls = publishing(I)
        reset = I.effects
        if block:
            C.ob(not started if Ls or not started else None,
                 "runs in the call", f"{len(started)} threads started")
        else:
            C.ob(not Ls, "does not run in the call", f"{len(Ls)} loops")
            C.ob(len(started) == 1 if B.threads or not started else None,
                 "one thread started", len(started))
            if len(started) != 1 or Ls:
                return
            t = next(t for t in B.threads
                     if t[0].k == started[0][0][0].k)
            C.eq(r, t[0], "thread returned")
            js = [c for c in M_.recorded(I, "join") if c[0][0].k == t[0].k]
            C.ob(not js, "does not wait for the thread",
                 f"{len(js)} calls of join", js[0][3] if js else None)
            pcs = [c for c, p in started[0][2] if c.op != "inloop"]
            C.ob(True if not pcs else None, "started in every case",
                 "; ".join(show(c)[:60] for c in pcs))
            reset = I.effects[:cval(started[0][0][1])]
            late = I.effects[cval(started[0][0][1]):]
            resets(rep, con, B, I, late, "after the thread has started")
            d = t[1]
            f = d.get("target", NONE)
            a = I.static_items(d["args"]) if "args" in d else []
            kw = d.get("kwargs")
            kw = {} if kw is None or is_none(kw) else {
                cval(x): v for x, v in kw.args}
            I.looplog, I.calls, I.effects = [], [], []
            if is_none(f) or a is None:
                C.ob(None, "target of the thread", show(f)[:80])
                return
            ctx.run(I, I.cur(f), a, kw)
            Ls = publishing(I)
            resets(rep, con, B, I, I.effects, "in the thread")
        first(rep, con, B, I, reset, Ls, block)
        C = M_.Check(rep, LOOP, con, I)
        outside = [c for c in M_.recorded(I, "publish")
                   if not any(c[2] == d[4] for L in Ls for d in L["calls"]
                              if d[0] == "rec:publish")]
        if not Ls:
            C.ob(False, "publishes repeatedly", f"{len(outside)} times "
                 "outside of a loop")
            return
        for L in Ls:
            loop(rep, con, B, L, kind)
    ctx.guarded(LOOP, con, go)


def again(ctx, rep, kind, block):
    """spin(), stop(), spin()"""
    con = f"{NAMES[kind]}.spin({'block' if block else 'thread'}) again"

    def go():
        B = Bench(ctx, kind)
        I = B.I
        kw = {"block": TRUE} if block else {}
        for _ in range(2):
            for own, nm in B.flags:
                if own is None:
                    I._set_attr1(I.cur(B.o), nm, sym("flag"), False)
            I.raises, I.effects, I.calls, I.looplog = [], [], [], []
            n = len(B.threads)
            r = ctx.run(I, I.getattr(I.cur(B.o), "spin"), [], dict(kw))
            if r is None:
                break
            end = I.looplog[:]
            started = M_.recorded(I, "start")
            if not block and started and _ == 0:
                # what the thread leaves behind
                t = next((t for t in B.threads
                          if t[0].k == started[0][0][0].k), None)
                f = t[1].get("target", NONE) if t else NONE
                a = I.static_items(t[1]["args"]) if t and "args" in t[
                    1] else []
                if not is_none(f) and a is not None and \
                        "kwargs" not in t[1]:
                    ctx.run(I, I.cur(f), a, {})
        C = M_.Check(rep, THREAD, con, I)
        if r is None:
            C.ob(False, "returns", "every path raises")
            return
        if block:
            Ls = [L for L in end if any(c[0] == "rec:publish"
                                        for c in L["calls"])]
            C.ob(bool(Ls), "publishes repeatedly", f"{len(Ls)} loops")
            return
        mine = [t[0].k for t in B.threads[n:]]
        old = [t[0].k for t in B.threads[:n]]
        ok = [s for s in started if s[0][0].k in mine]
        re_ = [s for s in started if s[0][0].k in old]
        C.ob(not re_, "no thread is started twice", f"{len(re_)}")
        C.ob(len(ok) == 1 if ok or not started and B.threads else
             False if re_ else None, "starts a new thread",
             f"{len(started)} started")
        if len(ok) == 1:
            C.ob(True if r.k == ok[0][0][0].k else
                 False if r.k in old else None, "thread returned",
                 show(r)[:80])
    ctx.guarded(THREAD, con, go)


def resets(rep, con, B, I, effects, when):
    bad = [e for e in effects if e.kind == "setattr" and B.key(
        e.node, e.how) in B.flags and not (
        e.args[0].op == "const" and
        cval(e.args[0]) == B.flags[B.key(e.node, e.how)])]
    rep.check(not bad, STOP, f"{con}: flag not reset {when}",
              "a stop() before that is lost" if bad else "",
              bad[0].loc if bad else None)


def first(rep, con, B, I, effects, Ls, block):
    """The flag is reset before the loop (or its thread) starts."""
    last = {}
    if block and Ls:
        n = {id(e) for L in Ls for e in L["effects"]}
        k = [i for i, e in enumerate(effects) if id(e) in n]
        inner = effects[k[0]:k[-1] + 1] if k else []
        resets(rep, con, B, I, inner, "in the loop")
        after = effects[k[-1] + 1:] if k else []
        effects = effects[:k[0]] if k else effects
        if not k:
            effects = [e for e in effects if not set_to(B, e, True)]
    for e in effects:
        if e.kind == "setattr" and B.key(e.node, e.how) in B.flags:
            last[B.key(e.node, e.how)] = e
    for key, v in B.flags.items():
        e = last.get(key)
        ok = e is not None and e.args[0].op == "const" and \
            cval(e.args[0]) != v
        cs = [c for c, p in e.pc if c.op != "inloop"] if e else []
        rep.check(ok and (True if not cs else None), STOP,
                  f"{con}: flag reset before the loop starts",
                  "set " + show(e.args[0]) if e else "not reset",
                  e.loc if e else None)


def set_to(B, e, stopped):
    k = B.key(e.node, e.how) if e.kind == "setattr" else None
    return k in B.flags and e.args[0].op == "const" and \
        (cval(e.args[0]) == B.flags[k]) == stopped


def loop(rep, con, B, L, kind):
    I = B.I
    C = M_.Check(rep, STOP, con, I, L["loc"])
    for what, st, sh in (("stop()", True, False), ("shutdown", False, True)):
        rs = [B.met(pc, L, st, sh) for pc in L["back"]]
        B.mus = carried(L)
        nxt = B.truth(L["test"], st, sh, L["seq"]) \
            if L["test"] is not None else True
        B.mus = {}
        ok = True if nxt is False or all(r is False for r in rs) else \
            None if None in rs + [nxt] and tested(B, L, what) else False
        if ok is None and nxt is None:
            ok = sometimes(B, L, st, sh)
        C.ob(ok, f"every pass ends after {what}",
             "no test of it in a pass" if not ok else
             f"{len(rs)} ways to the next pass")
    C = M_.Check(rep, LOOP, con, I, L["loc"])
    C.ob(bool(L["back"]), "repeats", f"{len(L['back'])} ways to the next "
         "pass")
    if L["test"] is not None:
        B.mus = {x.k: x.args[0] for x in walk(L["test"]) if x.op == "mu"}
        d = B.truth(L["test"], False, False, L["seq"])
        C.ob(d, "starts while not stopped", show(L["test"])[:120])
        B.mus = carried(L)
        d = B.truth(L["test"], False, False, L["seq"])
        C.ob(d, "goes on while not stopped", show(L["test"])[:120])
    for nm in ("brk", "rets"):
        for pc in L[nm]:
            d = B.met(pc, L, False, False)
            mine = [x for c, p in after(pc, L) for x in walk(c)
                    if x.op == "mu"]
            C.ob((False if mine else None) if d is None else not d,
                 "goes on while not stopped", "leaves the loop")
    pubs = [c for c in L["calls"] if c[0] == "rec:publish"]
    rs = [B.met(c[4], L, False, False) for c in pubs]
    C.ob(True if rs.count(True) == 1 and rs.count(None) == 0 else
         False if True not in rs and None not in rs or rs.count(True) > 1
         else None, "publishes once in every pass", len(pubs))
    sleeps = [c for c in L["calls"] if c[0] == "rec:sleep"]
    C = M_.Check(rep, PACE, con, I, L["loc"])
    for dt in ((True, False) if kind == "tf" else (None,)):
        tag = {True: "", False: " (numeric stamps)", None: ""}[dt]
        live = [c for c in sleeps if dt is None or M_.reached(
            c[4], lambda c: M_.kind_test(c, dt)) is not False]
        C.ob(len(live) == 1 if live or not waits(L) else None,
             "sleeps once in every pass" + tag, f"{len(live)} times")
        for c in live:
            v = (c[1][0] or [NONE])[0]
            if kind == "tf":
                cs = [x for x in after(c[4], L) if B.truth(
                    x[0], False, False, L["seq"]) is None and M_.kind_test(
                        x[0], dt) is None]
                E = step(B, L, pubs[0], None)
                pace(C, B, v, E, dt, tag, cs, c[2])
            else:
                C.ob(*times(v, B.interval), c[2])
                cs = [x for x in after(c[4], L) if B.truth(
                    x[0], False, False, L["seq"]) is None]
                C.ob(C.always(cs, [(N("cmp", (const(0), B.interval), "<"),
                                    True)]), "in every case",
                     "; ".join(show(x[0])[:60] for x in cs))
    B.mus = {}
    if kind == "tf":
        step(B, L, pubs[0], M_.Check(rep, NEXT, con, I, L["loc"]))


def sometimes(B, L, st, sh):
    """False if the next pass starts for some current sample."""
    at = {x.k: x for x in walk(L["test"]) if x.op == "cmp" and B.truth(
        x, st, sh, L["seq"]) is None}
    mus = {x.k: x for c in at.values() for x in walk(c) if x.op == "mu"}
    if len(at) != 1 or len(mus) != 1 or B.kind != "tf":
        return None
    c, m = *at.values(), *mus.values()
    e = env(B, m, c)
    if {holds(c, e, "last"), holds(c, e, "inner")} not in (
            {True, False}, {"varies"}, {"varies", True}, {"varies", False}):
        return None
    B.free = c.k
    try:
        for v in (True, False):
            B.value = v
            if B.truth(L["test"], st, sh, L["seq"]) is True:
                return False
    finally:
        B.free = None
    return None


def times(v, want):
    """Is v the wanted time, or a multiple of it?"""
    f, x = 1.0, v
    while True:
        if x.op == "builtins.float":
            x = x.args[0]
        elif x.op == "binop" and x.meta in ("*", "/"):
            a, b = x.args
            if x.meta == "*" and a.op == "const":
                a, b = b, a
            if b.op != "const" or not isinstance(cval(b), (int, float)):
                break
            f = f * cval(b) if x.meta == "*" else f / cval(b)
            x = a
        else:
            break
    r = M_.same(x, want)
    return (False if r and abs(f - 1) > 1e-12 else r), \
        "sleeps the given interval", show(v)[:100]


def carried(L):
    """Values that variables of the loop have at the end of a pass."""
    out = {}
    if L["end"] is None:
        return out
    for (fid, v), x in L["mu_env"].items():
        out[x.k] = L["end"].envs[fid].get(v, x)
    for uid, x in L["mu_obj"].items():
        e = L["end"].upd.get(uid)
        if x.op == "inst" and e is not None and e.op == "inst":
            e = dict(e.args)
            for f, v in x.args:
                if v.op == "mu" and f in e:
                    out[v.k] = e[f]
    return out


def after(pc, L):
    ks = [i for i, (c, p) in enumerate(pc)
          if c.op == "inloop" and c.args[0].k == L["it"].k]
    return [x for x in pc[ks[-1] + 1 if ks else 0:] if x[0].op != "inloop"]


def waits(L):
    return any(any(w in c[0].lower() for w in ("sleep", "wait", "rate"))
               for c in L["calls"])


def tested(B, L, what):
    """Does any condition of the pass read the flag afresh?"""
    nm = "<shutdown>" if what == "shutdown" else None
    for pc in L["back"]:
        for c, p in after(pc, L):
            for x in walk(c):
                if x.op == "vol" and x.meta[1] > L["seq"] and (
                        (x.meta[0] == nm) == (nm is not None)):
                    return True
    return False


# ------------------------------------------------------------- the samples
def lin(n, env):
    """{m, n, 1} coefficients of an integer expression, or None."""
    if n.k in env:
        return dict(env[n.k])
    if n.op == "const" and isinstance(cval(n), int):
        return {1: int(cval(n))}
    if n.op == "builtins.int" and len(n.args) == 1:
        return lin(n.args[0], env)
    if n.op == "binop" and n.meta in ("+", "-"):
        a, b = lin(n.args[0], env), lin(n.args[1], env)
        if a is None or b is None:
            return None
        s = 1 if n.meta == "+" else -1
        r = {k: a.get(k, 0) + s * b.get(k, 0) for k in {*a, *b}}
        return {k: v for k, v in r.items() if v}
    return None


def length(B, n):
    """Is n the number of samples?"""
    T = B.T
    of = None
    if n.op == "builtins.len" or n.op == "len":
        of = n.args[0]
    elif n.op == "attr" and n.meta == "size":
        of = n.args[0]
        return M_.hold(of).k == T.ts.k
    elif n.op == "item" and n.args[0].op == "attr" and n.args[0].meta == \
            "shape" and n.args[1].op == "const" and cval(n.args[1]) == 0:
        of = n.args[0].args[0]
    elif n.op == "shape" or n.op == "dim":
        of = n.args[0]
    return of is not None and M_.hold(of).k in {
        T.ts.k, T.tr.k, T.rot.k}


def env(B, m, *ns):
    e = {m.k: {"m": 1}}
    for n in ns:
        for x in walk(n):
            if x.k not in e and length(B, x):
                e[x.k] = {"n": 1}
    return e


def step(B, L, pub, C):
    """The index of the next pass; obligations if C is given."""
    m = pub[1][0][0]
    what = "sample published is the current one"
    if m.op == "item" and m.args[1].op == "const":
        pass
    if m.op != "mu":
        if C:
            C.ob(False if m.op == "const" or m.op == "binop" else None, what,
                 show(m)[:100], pub[2])
        return None
    if C:
        C.ob(True, what, m.meta[1])
    E = carried(L).get(m.k)
    if E is None:
        if C:
            C.ob(None, "goes on to the next sample", show(m))
        return None
    if C:
        i = m.args[0]
        C.ob(True if i.op == "const" and cval(i) == 0 else
             False if i.op == "const" else None,
             "starts with the current sample", show(i))
        C.ob(*advance(B, m, E))
    return m, E


def advance(B, m, E):
    what = "goes on to the next sample"
    txt = show(E)[:120]
    e = env(B, m, E)
    if E.k == m.k:
        return False, what, "stays at the sample"
    r = lin(E, e)
    if r is not None:
        return False, what, "runs past the last sample: " + txt
    if E.op == "binop" and E.meta == "%":
        a, b = lin(E.args[0], e), lin(E.args[1], e)
        if a is None or b is None:
            return None, what, txt
        return a == {"m": 1, 1: 1} and b == {"n": 1}, what, txt
    if E.op == "phi":
        w = wrap(E.args[0], e)
        a, b = lin(E.args[1], e), lin(E.args[2], e)
        if w is None or a is None or b is None:
            return None, what, txt
        return (a, b, w) in (({}, {"m": 1, 1: 1}, "last"),
                             ({"m": 1, 1: 1}, {}, "not last")) or (
            a, b, w) in (({1: 0}, {"m": 1, 1: 1}, "last"),
                         ({"m": 1, 1: 1}, {1: 0}, "not last")), what, txt
    if E.op in ("builtins.min", "numpy.clip", "numpy.minimum"):
        return False, what, "stays at the last sample: " + txt
    return None, what, txt


OPS = {"==": lambda x: x == 0, "!=": lambda x: x != 0,
       "<": lambda x: x < 0, "<=": lambda x: x <= 0,
       ">": lambda x: x > 0, ">=": lambda x: x >= 0}


def wrap(c, e):
    """'last' if c holds exactly at the last sample, 'not last' for the
    opposite, 'other' or None."""
    r = holds(c, e, "last"), holds(c, e, "inner")
    return None if None in r else {
        (True, False): "last", (False, True): "not last"}.get(r, "other")


def pace(C, B, v, mE, dt, tag, cs, loc):
    """v is the time from the sample before to the next one (0 for the first
    sample)."""
    what = "sleeps the time between samples" + tag
    if mE is None:
        C.ob(None, what, show(v)[:100], loc)
        return
    m, E = mE
    while v.op in ("builtins.max", "builtins.min", "numpy.maximum",
                   "numpy.minimum", "numpy.fmax", "numpy.fmin") and len(
            v.args) == 2 and sum(x.op == "const" for x in v.args) == 1:
        a, b = v.args if v.args[1].op == "const" else v.args[::-1]
        if v.op.endswith(("max", "maximum")) and cval(b) <= 0:
            v = a       # stamps increase
            continue
        C.ob(False, what, f"not {'more' if 'min' in v.op else 'less'} than "
             f"{cval(b)} seconds", loc)
        return

    def leaves(v, firsts):
        # (condition on the next sample being the first, value)
        while v.op in ("builtins.float", "numpy.float64") and v.args:
            v = v.args[0]
        if v.op == "binop" and v.args[0].op == "phi" and v.args[
                1].op == "const":
            c, a, b = v.args[0].args
            v = N("phi", (c,) + tuple(N("binop", (x, v.args[1]), v.meta)
                                      for x in (a, b)))
        if v.op != "phi":
            return [(firsts, v)]
        d = M_.kind_test(v.args[0], dt)
        if d is not None:
            return leaves(v.args[1 if d else 2], firsts)
        z = is_first(v.args[0], m, E, B)
        if z in ("always", "never"):
            return leaves(v.args[1 if z == "always" else 2], firsts)
        if z in (None, "other"):
            return [(z, v)]
        if firsts is not None:
            return leaves(v.args[1 if z == firsts else 2], firsts)
        return leaves(v.args[1], z) + leaves(v.args[2], not z)
    zs = leaves(v, None)
    if any(z == "other" for z, x in zs):
        C.ob(False, what, "depends on another sample: " + show(v)[:120], loc)
        return
    if any(z is None and x.op == "phi" for z, x in zs):
        C.ob(None, what, show(v)[:160], loc)
        return
    fs = None
    for c, p in cs:
        z = is_first(c, m, E, B)
        if z == ("always" if p else "never"):
            continue
        if z not in (True, False):
            C.ob(None if z is None else False, what,
                 f"only if {show(c)[:80]}", loc)
            return
        fs = z == p
    if fs is True:
        C.ob(False, what, "only before the first sample", loc)
        return
    covered = False
    for z, x in zs:
        if z is True:
            C.ob(True if x.op == "const" and cval(x) == 0 else
                 False if x.op == "const" else None,
                 "does not wait for the first sample" + tag,
                 show(x)[:100], loc)
            continue
        covered = True
        C.ob(*between(x, m, E, B, dt, what), loc)
        if z is None and fs is None:
            C.ob(False if between(x, m, E, B, dt, what)[0] is not None
                 else None, "does not wait for the first sample" + tag,
                 "a negative time at the first sample", loc)
    C.ob(covered, what, "no wait between samples" if not covered else "",
         loc)


def is_first(c, m, E, B):
    """True / False if c holds exactly when the next sample is (not) the
    first, "always", "never", "other", or None if it is not understood."""
    e = env(B, m, c)
    r = tuple(holds(c, {**e, E.k: v}, case) for case, v in (
        ("last", {}), ("inner", {"m": 1, 1: 1})))
    if None in r:
        return None
    return {(True, False): True, (False, True): False,
            (True, True): "always", (False, False): "never"}.get(r, "other")


def holds(c, e, case):
    """Truth of c for every current sample m = n - 1 ("last") or 0 <= m <
    n - 1 ("inner"): True, False, "varies" or None."""
    if c.op == "const":
        return bool(cval(c))
    if c.op == "not":
        d = holds(c.args[0], e, case)
        return not d if isinstance(d, bool) else d
    if c.op == "phi":
        d = holds(c.args[0], e, case)
        if d is True or d is False:
            return holds(c.args[1 if d else 2], e, case)
        r = [holds(x, e, case) for x in c.args[1:]]
        return r[0] if r[0] == r[1] else \
            None if None in r + [d] else "varies"
    if c.op == "truth":
        a, b, op = lin(c.args[0], e), {}, "!="
    elif c.op == "cmp" and c.meta in OPS:
        a, b, op = lin(c.args[0], e), lin(c.args[1], e), c.meta
    else:
        return None
    if a is None or b is None:
        return None
    m, n, k = (a.get(x, 0) - b.get(x, 0) for x in ("m", "n", 1))
    # as a sum of terms that are 0, 1, 2, ... times a coefficient
    if case == "last":
        cs, k = [m + n], k + n
    else:
        cs, k = [m + n, n], k + 2 * n
    lo = k if all(x >= 0 for x in cs) else None
    hi = k if all(x <= 0 for x in cs) else None
    f = OPS[op]
    if lo is not None and hi is not None:
        return f(k)
    if lo is not None:
        r = {f(lo), f(lo + 1), f(lo + 1000)} if lo <= 0 else {f(lo)}
    elif hi is not None:
        r = {f(hi), f(hi - 1), f(hi - 1000)} if hi >= 0 else {f(hi)}
    else:
        return "varies"
    return r.pop() if len(r) == 1 else "varies"


def position(tok, m, E, B):
    """Index of a sample in terms of the current one, m, if the next is not
    the first."""
    i = M_.SEEN.get(tok[1]) if tok and tok[0] == "at" else None
    if i is None:
        return None
    return lin(i, {**env(B, m, i), E.k: {"m": 1, 1: 1}})


def between(x, m, E, B, dt, what):
    txt = show(x)[:160]
    scale = 1.0
    if x.op == "item" and x.args[0].op in ("numpy.diff", "numpy.ediff1d"):
        s = M_.moment(x.args[0].args[0], dt, True)
        if not isinstance(s, M_.Moment) or s.src.k != B.T.ts.k:
            return (False if isinstance(s, str) else None), what, txt
        i = lin(x.args[1], {**env(B, m, x), E.k: {"m": 1, 1: 1}})
        if s.scale is None or i is None:
            return None, what, txt
        return s.scale == 1.0 and i == {"m": 1}, what, txt
    while True:
        if x.op == "binop" and x.meta in ("/", "*") and \
                x.args[1].op == "const" and not isinstance(
                    cval(x.args[1]), bool) and isinstance(
                    cval(x.args[1]), (int, float)):
            f = cval(x.args[1])
            scale = scale / f if x.meta == "/" else scale * f
            x = x.args[0]
        elif x.op in ("builtins.float", "numpy.float64"):
            x = x.args[0]
        else:
            break
    delta = None
    if x.op == "m:total_seconds":
        delta, x = 1.0, x.args[0]
    elif x.op == "binop" and x.meta == "/" and x.args[1].op in (
            "numpy.timedelta64", "pandas.Timedelta"):
        t = [cval(a) for a in x.args[1].args if a.op == "const"]
        u = {"s": 1.0, "ms": 1e3, "us": 1e6, "ns": 1e9}
        if len(t) == 2 and t[1] in u:
            delta, x = u[t[1]] / t[0], x.args[0]
    elif x.op == "m:astype" and x.args[0].op == "m:astype" and \
            x.args[0].args[1].op == "const" and str(cval(
                x.args[0].args[1])).endswith("64[ns]"):
        delta, x = 1e9, x.args[0].args[0]
    if x.op != "binop" or x.meta != "-":
        return (False if x.op == "const" else None), what, txt
    p, q = (M_.moment(a, dt) for a in x.args)
    for y in (p, q):
        if isinstance(y, str):
            return False, what, y
        if y is None:
            return None, what, txt
        if y.src.k != B.T.ts.k:
            return None, what, txt
    if p.scale != q.scale:
        return False, what, "difference of unlike times: " + txt
    sc = p.scale
    if sc is None:
        if delta is None:
            return (False if scale == 1.0 else None), what, \
                "a time difference is used as seconds"
        sc = delta
    elif delta is not None:
        return None, what, txt
    if abs(sc * scale - 1) > 1e-12:
        return False, what, f"{sc * scale:g} times the time between samples"
    ls = [position(y.index, m, E, B) for y in (p, q)]
    if None in ls:
        return None, what, txt
    return ls == [{"m": 1, 1: 1}, {"m": 1}], what, txt


# --------------------------------------------------------- the subscription
def listening(ctx, rep):
    con = "ReferenceFrameTransformBroadcaster.spin(subscribed)"

    def go():
        B = Bench(ctx, "tf", subscribe=TRUE)
        I = B.I
        ctx.run(I, I.getattr(I.cur(B.o), "spin"), [], {"block": TRUE})
        C = M_.Check(rep, LOOP, con, I)
        Ls = publishing(I)
        C.ob(not Ls, "publishes on incoming messages only",
             f"{len(Ls)} loops")
        sp = M_.recorded(I, "rospy.spin")
        C.ob(True if sp else None if waits({"calls": I.calls}) or I.looplog
             else False, "waits for messages", f"{len(sp)} calls of "
             "rospy.spin")
    ctx.guarded(LOOP, con, go)


def once(ctx, rep):
    con = "ReferenceFrameTransformBroadcaster.spin(static)"

    def go():
        B = Bench(ctx, "tf", static=True)
        I = B.I
        r = ctx.run(I, I.getattr(I.cur(B.o), "spin"), [], {})
        C = M_.Check(rep, LOOP, con, I)
        pubs = M_.recorded(I, "publish")
        C.ob(r is not None and len(pubs) == 1 and not publishing(I) if pubs
             or r is None else None if B.threads else False,
             "publishes the transform once", len(pubs))
    ctx.guarded(LOOP, con, go)


def initialised(ctx, rep, static):
    con = "ReferenceFrameTransformBroadcaster(subscribe)" + (
        " static" if static else "")

    def go():
        subs = []

        class T(TFBench):
            def subscribe(self, I, a, k):
                d = dict(zip(("name", "data_class", "callback"), a), **k)
                cb = d.get("callback", NONE)
                o = I.cur(cb.args[0]) if cb.op == "bound" else None
                subs.append((cb, dict(o.args) if o is not None and
                             o.op == "inst" else None, I.loc))
                return sym("subscriber", nonnull=True)
        B = T(ctx, static=static, subscribe=TRUE)
        I = B.I
        C = M_.Check(rep, INIT, con, I)
        C.ob(len(subs) == 1 if subs else False, "subscribes once", len(subs))
        for cb, have, loc in subs:
            if have is None:
                C.ob(None, "handler", show(cb)[:80], loc)
                continue
            final = dict(I.cur(B.o).args)
            read = set()
            get = I.getattr

            def watch(b, name, raw=False):
                x = b if raw else I.cur(b)
                if x.op == "inst" and x.uid == B.o.uid and name in final:
                    read.add(name)
                return get(b, name, raw)
            I.getattr = watch
            try:
                ctx.run(I, cb, [sym("msg", nonnull=True)], {})
            finally:
                del I.getattr
            late = sorted(x for x in read if x not in have)
            changed = sorted(x for x in read if x in have and
                             have[x].k != final[x].k)
            C.ob(not late, "attributes the handler reads are set",
                 "not yet: " + ", ".join(late) if late else
                 ", ".join(sorted(read)), loc)
            C.ob(not changed, "and not replaced later",
                 ", ".join(changed), loc)
    ctx.guarded(INIT, con, go)
