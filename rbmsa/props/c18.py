"""C18: rosbag files are read and written sample by sample."""
from ..ctx import NONE, TRUE, N, const, cval, is_none, show, sym
from ..dom.labelled import Reader, Set, Unknown, labels
from ..ir import is_const
from . import c13, rosmsg as M_

READ = "read"
DATA = "dataset"
WRITE = "written"
SHAPE = "checked"
MOD = "ros.io"
PK = "rigid_body_motion.ros.io."
TYPES = {
    "nav_msgs/Odometry": (
        ("position", "pose.pose.position", "xyz"),
        ("orientation", "pose.pose.orientation", "wxyz"),
        ("linear_velocity", "twist.twist.linear", "xyz"),
        ("angular_velocity", "twist.twist.angular", "xyz")),
    "geometry_msgs/TransformStamped": (
        ("position", "transform.translation", "xyz"),
        ("orientation", "transform.rotation", "wxyz")),
}
DIMS = {"position": ("time", "cartesian_axis"),
        "orientation": ("time", "quaternion_axis"),
        "linear_velocity": ("time", "cartesian_axis"),
        "angular_velocity": ("time", "cartesian_axis")}


def check(ctx, rep):
    rep.rule(READ, "every column of the returned arrays, followed through the "
                   "array of rows, is the specified field of the message, "
                   "and the rows are those of all messages of the topic")
    rep.rule(DATA, "variables, dimensions and coordinates of the dataset are "
                   "the loaded arrays under their names, the stamps read as "
                   "seconds; what is exported or cached is that dataset")
    rep.rule(WRITE, "one message is written for every sample, with the fields "
                    "of that sample, to the given topic")
    rep.rule(SHAPE, c13.TEXT)
    for ty, cols in TYPES.items():
        load(ctx, rep, ty, cols)
    unsupported(ctx, rep)
    topics(ctx, rep)
    msg_type(ctx, rep)
    for ty, cols in TYPES.items():
        dataset(ctx, rep, ty, cols)
    cached(ctx, rep)
    for out in (None, "str", "path"):
        export(ctx, rep, out)
    write(ctx, rep)
    for dt in (True, False):
        for named in (True, False):
            write_dataset(ctx, rep, dt, named)
    shapes(ctx, rep)


def reader(ctx, ty=None, over=(), file=None):
    I = ctx.interp()
    rd = I.call(ctx.at(I, MOD, "RosbagReader"), [file or sym(
        "file", nonnull=True)], {})
    bag = sym("bag", nonnull=True)
    I._set_attr1(I.cur(rd), "_bag", bag, False)
    if ty is not None:
        I.overrides[PK + "RosbagReader._get_msg_type"] = \
            lambda I, a, k: const(ty)
    for q, f in over:
        I.overrides[PK + q] = f
    I.raises, I.effects, I.calls = [], [], []
    return I, I.cur(rd), bag


# ------------------------------------------------------------------ reading
class Rows:
    """Columns of an array: nodes for one row of a loop over `src`."""

    def __init__(self, src, cols, ndim, cond=None):
        self.src, self.cols, self.ndim, self.cond = src, cols, ndim, cond


def rows(I, n):
    """Rows of a node, an error text, or None."""
    if n.op in ("numpy.array", "numpy.asarray", "numpy.stack",
                "numpy.vstack", "builtins.list", "builtins.tuple") and n.args:
        if n.op == "numpy.stack" and len(n.args) > 1 and not is_const(
                n.args[1], 0):
            return None
        return rows(I, n.args[0])
    if n.op in ("m:astype", "m:copy", "numpy.asanyarray"):
        return rows(I, n.args[0])
    if n.op in ("list", "tuple") and len(n.args) == 1 and \
            n.args[0].op == "mapseg":
        src, e, c = n.args[0].args
        its = I.static_items(e)
        cond = None if is_const(c, True) else c
        if its is not None:
            return Rows(src, its, 2, cond)
        if e.op in ("multi", "phi"):
            return None
        return Rows(src, [e], 1, cond)
    if n.op == "numpy.unique" or n.op == "item" and \
            n.args[0].op == "numpy.unique":
        r = rows(I, (n if n.op != "item" else n.args[0]).args[0])
        return r if r is None or isinstance(r, str) else \
            "messages that equal another one are left out"
    if n.op == "item":
        r = rows(I, n.args[0])
        if not isinstance(r, Rows):
            return r
        i = n.args[1]
        t = M_.some(i.args[0] if i.op == "tuple" and i.args else i)
        if t:
            return t
        idx = list(i.args) if i.op == "tuple" else [i]
        if len(idx) == 2 and idx[0].op == "ellipsis":
            idx[0] = N("slice", (NONE, NONE, NONE))
        if r.ndim != 2 or len(idx) != 2 or idx[0].op != "slice" or not all(
                is_none(x) for x in idx[0].args):
            if idx and idx[0].op == "slice" and any(
                    not is_none(x) for x in idx[0].args[:2]):
                return "some messages are left out"
            return None
        j = idx[1]
        if j.op == "const" and isinstance(cval(j), int):
            if -len(r.cols) <= cval(j) < len(r.cols):
                return Rows(r.src, [r.cols[cval(j)]], 1, r.cond)
            return "no such column"
        if j.op == "slice" and all(x.op == "const" for x in j.args):
            return Rows(r.src, r.cols[slice(*map(cval, j.args))], 2, r.cond)
        if j.op in ("list", "tuple") and all(x.op == "const"
                                             for x in j.args):
            return Rows(r.src, [r.cols[cval(x)] for x in j.args], 2, r.cond)
    return None


def path(n):
    """(root, field names) of a chain of attributes."""
    p = []
    while n.op == "attr":
        p.insert(0, n.meta)
        n = n.args[0]
    return n, ".".join(p)


def part(n, i):
    """Is n item i of the (topic, message, time) tuple of a loop?"""
    return n.op == "item" and n.args[0].op == "elem" and n.args[1].op == \
        "const" and cval(n.args[1]) in (i, i - 3) or \
        n.op == "attr" and n.args[0].op == "elem" and n.meta == (
            "topic", "message", "timestamp")[i]


def messages(C, r, bag, topic, loc):
    """The loop runs over all messages of the topic."""
    what = "messages of the topic"
    src = r.src
    if src.op != "m:read_messages":
        C.ob(None, what, show(src)[:100], loc)
        return
    C.eq(src.args[0], bag, "bag read")
    names = [n for m in (src.meta or ()) if isinstance(m, (tuple, str))
             for n in ((m,) if isinstance(m, str) else m)]
    k = len(src.args) - len(names)
    got = dict(zip(("topics", "start_time", "end_time",
                    "connection_filter", "raw"), src.args[1:k]))
    got.update(zip(names, src.args[k:]))
    t = got.pop("topics", NONE)
    while t.op in ("list", "tuple") and len(t.args) == 1:
        t = t.args[0]
    c = r.cond
    if c is not None and c.op == "cmp" and c.meta == "==" and any(
            part(x, 0) and y.k == topic.k for x, y in (c.args,
                                                       c.args[::-1])):
        t = topic if is_none(t) else t
        c = None
    C.eq(t, topic, what)
    C.ob(c is None, "every message", f"only if {show(c)[:80]}"
         if c is not None else "", loc)
    for x in ("start_time", "end_time"):
        if x in got and not is_none(got[x]):
            C.ob(False, what, f"only from or until {x}", loc)


def load(ctx, rep, ty, cols):
    con = f"load_messages({ty})"

    def go():
        I, rd, bag = reader(ctx, ty)
        topic = sym("topic", nonnull=True, kind="str")
        r = ctx.run(I, I.getattr(rd, "load_messages"), [topic], {})
        C = M_.Check(rep, READ, con, I, r.loc if r is not None else None)
        if r is None:
            C.ob(False, "returns", "every path raises")
            return
        names = {"timestamps"} | {c[0] for c in cols}
        keys = {cval(k) for k, _ in r.args} if r.op == "dict" else None
        C.ob(None if keys is None else keys == names, "arrays",
             str(sorted(map(str, keys))) if keys is not None else
             show(r)[:80])
        if r.op != "dict":
            return
        got = {cval(k): v for k, v in r.args}
        for nm, fields, comp in (("timestamps", None, ""),) + cols:
            if nm not in got:
                continue
            n = got[nm]
            t = rows(I, n)
            if not isinstance(t, Rows):
                C.ob(False if t else None, nm, t or show(n)[:120], n.loc)
                continue
            messages(C, t, bag, topic, n.loc)
            if fields is None:
                C.ob(t.ndim == 1, "timestamps: one-dimensional",
                     f"{t.ndim} axes", n.loc)
                for has in (True, False):
                    stamp(C, t.cols[0], has)
                continue
            C.ob(t.ndim == 2 and len(t.cols) == len(comp), f"{nm}: columns",
                 f"{len(t.cols)}", n.loc)
            for c, x in zip(comp, t.cols):
                root, p = path(M_.peel(x))
                C.ob(p == f"{fields}.{c}" if part(root, 1) else
                     False if part(root, 0) or part(root, 2) else None,
                     f"{nm}.{c}", p or show(x)[:80], n.loc)
    ctx.guarded(READ, con, go)


def stamp(C, n, has):
    """Header stamp if the message has a header, else the record time."""
    what = "stamp of a message with" + ("" if has else "out") + " a header"

    def hyp(c):
        if c.op == "not":
            d = hyp(c.args[0])
            return None if d is None else not d
        if c.op == "truth":
            return hyp(c.args[0])
        if c.op == "attr" and c.meta == "_has_header":
            return has
        if c.op == "hasattr" or c.op.endswith("hasattr"):
            return has if is_const(c.args[1], "header") else None
        return None

    def asks(c):
        """The header stamp, if the condition asks whether it is zero."""
        while c.op in ("not", "truth"):
            c = c.args[0]
        r, p = path(c)
        return p == "header.stamp" and part(r, 1)

    def res(n):
        if n.op == "phi":
            d = hyp(n.args[0])
            return n if d is None else res(n.args[1 if d else 2])
        if n.op in ("m:to_sec", "rospy.Time.to_sec", "attr", "builtins.float",
                    "rospy.rostime.Time.to_sec"):
            return N(n.op, (res(n.args[0]),) + n.args[1:], n.meta)
        return n
    n = res(n)
    for x in nodes(n):
        if x.op == "phi" and asks(x.args[0]):
            C.ob(False, what, "a stamp of zero is replaced" if has else
                 "read from a message without one")
            return
    conv = 0
    while n.op in ("m:to_sec", "rospy.Time.to_sec", "builtins.float",
                   "rospy.rostime.Time.to_sec"):
        conv += n.op != "builtins.float"
        n = n.args[0]
    root, p = path(n)
    if not part(root, 1) and not part(root, 2):
        C.ob(None, what, show(n)[:100])
        return
    if has:
        C.ob(part(root, 1) and p == "header.stamp", what,
             f"{'message' if part(root, 1) else 'record time'} {p}")
    else:
        C.ob(part(root, 2) and p == "", what,
             f"{'message' if part(root, 1) else 'record time'} {p}")
    C.ob(conv == 1 or p in ("header.stamp.secs", "secs") and None,
         what + " in seconds", f"{conv} conversions")


def unsupported(ctx, rep):
    con = "load_messages(unsupported type)"

    def go():
        I, rd, bag = reader(ctx, "std_msgs/String")
        r = ctx.run(I, I.getattr(rd, "load_messages"), [sym("topic")], {})
        C = M_.Check(rep, READ, con, I)
        C.ob(r is None, "is rejected", "returns" if r is not None else "")
        C.ob(all(e.how == "ValueError" for e in I.raises) or None, "error",
             ", ".join(str(e.how) for e in I.raises))
    ctx.guarded(READ, con, go)


def info(n):
    """Part of a bag's type and topic info: ("topics"|"msg_types", n)."""
    if n.op == "attr" and n.meta in ("topics", "msg_types"):
        return n.meta, n.args[0]
    if n.op == "item" and n.args[1].op == "const":
        return {1: "topics", 0: "msg_types", -1: "topics"}.get(
            cval(n.args[1])), n.args[0]
    return None, n


def ttype(n):
    """What n is the message type of, or None."""
    if n.op == "attr":
        return n.args[0] if n.meta == "msg_type" else False
    if n.op == "item" and n.args[1].op == "const":
        return n.args[0] if cval(n.args[1]) in (0, -4) else False
    return None


def topics(ctx, rep):
    con = "get_topics_and_types()"

    def go():
        I, rd, bag = reader(ctx)
        r = ctx.run(I, I.getattr(rd, "get_topics_and_types"), [], {})
        C = M_.Check(rep, READ, con, I, r.loc if r is not None else None)
        if r is None:
            C.ob(False, "returns", "every path raises")
            return
        # a dict built by one loop over the items of the topics
        k = v = it = None
        n = r
        cond = None
        if n.op == "dictcomp" and len(n.args) == 1 and \
                n.args[0].op == "mapseg":
            it, e, cond = n.args[0].args
            k, v = I.getitem(e, const(0)), I.getitem(e, const(1))
        elif n.op == "loop" and n.args[3].op == "update":
            it, k, v = n.args[0], n.args[3].args[1], n.args[3].args[2]
        elif n.op == "builtins.dict" and n.args[0].op == "list" and len(
                n.args[0].args) == 1 and n.args[0].args[0].op == "mapseg":
            it, e, cond = n.args[0].args[0].args
            k, v = I.getitem(e, const(0)), I.getitem(e, const(1))
        if it is None or it.op not in ("m:items", "dictitems"):
            C.ob(None, "topics and types", show(r)[:160])
            return
        what, src = info(it.args[0])
        C.ob(what == "topics" if what else None, "topics of the bag",
             show(it)[:100])
        C.ob(cond is None or is_const(cond, True), "all topics",
             f"only if {show(cond)[:80]}" if cond is not None else "")
        C.ob(True if src.op == "m:get_type_and_topic_info" and
             src.args[0].k == bag.k and len(src.args) == 1 else None,
             "of the bag", show(src)[:80])

        def entry(n, i):
            return n.op == "item" and n.args[0].op == "elem" and \
                n.args[0].args[0].k == it.k and is_const(n.args[1], i)
        C.ob(entry(k, 0) or (False if entry(k, 1) else None),
             "keys are the topics", show(k)[:100])
        x = ttype(v)
        C.ob(entry(x, 1) or None if x else x, "values are the message types",
             show(v)[:100])
    ctx.guarded(READ, con, go)


def msg_type(ctx, rep):
    con = "message type of a topic"

    def go():
        I, rd, bag = reader(ctx)
        topic = sym("topic", nonnull=True, kind="str")
        asked = []
        I.overrides[PK + "RosbagReader._get_msg_type"] = lambda I, a, k: (
            asked.append((a, k)), const("nav_msgs/Odometry"))[1]
        ctx.run(I, I.getattr(rd, "load_messages"), [topic], {})
        if not asked:
            rep.unknown(READ, con, "not asked for")
            return
        del I.overrides[PK + "RosbagReader._get_msg_type"]
        a, k = asked[0]
        f = I.getattr(I.cur(rd), "_get_msg_type")
        a = [x for x in a if x.op != "inst"]
        n = ctx.run(I, f, a, k)
        C = M_.Check(rep, READ, con, I, n.loc)
        t = ttype(n)
        C.ob(False if t is False else t is not None or None, "type",
             show(n)[:120])
        if not t:
            return
        C.ob(t.op == "item" and t.args[1].k == topic.k or
             (False if M_.known(t) else None), "of the topic", show(t)[:120])
        what, src = info(t.args[0])
        C.ob(True if what == "topics" and src.op ==
             "m:get_type_and_topic_info" and src.args[0].k == bag.k
             else None, "of the bag", show(src)[:120])
    ctx.guarded(READ, con, go)


# ------------------------------------------------------------------ dataset
def dataset(ctx, rep, ty, cols, asked=None):
    con = f"load_dataset({ty})"
    if asked:
        con += f" ({show(asked[0])[:60]} is {asked[1]})"

    def go():
        names = ["timestamps"] + [c[0] for c in cols]
        vals = {n: sym("loaded_" + n, nonnull=True, kind="ndarray")
                for n in names}
        calls = []

        def over(I, a, k):
            calls.append((a, k))
            return I.mk("dict", [(const(n), v) for n, v in vals.items()])
        I, rd, bag = reader(ctx, ty, [("RosbagReader.load_messages", over)])
        topic = sym("topic", nonnull=True, kind="str")
        if asked:
            I.decider = lambda c, I: asked[1] if c.k == asked[0].k else None
        r = ctx.run(I, I.getattr(rd, "load_dataset"), [topic], {})
        C = M_.Check(rep, DATA, con, I, r.loc if r is not None else None)
        if r is None:
            C.ob(False, "returns", "every path raises")
            return
        for a, k in calls:
            C.eq(a[1] if len(a) > 1 else k.get("topic", NONE), topic,
                 "topic loaded")
        R = Reader(I)
        try:
            s = R.read(r)
        except Unknown as e:
            cs = [x.args[0] for x in nodes(r) if x.op == "phi" and
                  M_.possible(x.args[0])]
            if cs and not asked:
                # both answers occur
                for v in (True, False):
                    dataset(ctx, rep, ty, cols, (cs[0], v))
            else:
                C.ob(None, "dataset", str(e))
            return
        if not isinstance(s, Set):
            C.ob(None, "dataset", "not a dataset")
            return
        want = {c[0] for c in cols}
        C.ob(set(s.vars) - set(s.coords.d) == want, "variables",
             str(sorted(map(str, s.vars))))
        for nm in want & set(s.vars):
            v = s.vars[nm]
            lab = labels(v.dims) if v.dims is not None else None
            C.ob(None if lab is None else lab == DIMS[nm],
                 f"{nm}: dimensions", str(lab))
            C.eq(v.data, vals[nm], f"{nm}: values")
        for nm, lb in (("cartesian_axis", tuple("xyz")),
                       ("quaternion_axis", tuple("wxyz"))):
            g = s.coords.get(nm)
            g = g if isinstance(g, N) else None
            lab = labels(g) if g is not None else None
            C.ob(False if g is None else None if lab is None else lab == lb,
                 f"{nm}: labels", str(lab))
        g = s.coords.get("time")
        time(C, g if isinstance(g, N) else None, vals["timestamps"])
    ctx.guarded(DATA, con, go)


def time(C, g, want):
    what = "time coordinate"
    if g is not None and g.op == "tuple" and len(g.args) == 2:
        C.ob(labels(g.args[0]) == ("time",), what + ": dimension",
             show(g.args[0]))
        g = g.args[1]
    if g is None:
        C.ob(False, what, "missing")
        return
    while g.op in ("attr", "pandas.DatetimeIndex", "m:to_numpy") and \
            g.op != "attr" or g.op == "attr" and g.meta in ("values", "data"):
        g = g.args[0]
    if g.op == "pandas.to_datetime":
        names = [x for m in (g.meta or ()) for x in (
            (m,) if isinstance(m, str) else m)]
        k = dict(zip(names, g.args[len(g.args) - len(names):]))
        C.eq(g.args[0], want, what)
        u = k.get("unit")
        C.ob(False if u is None else cval(u) == "s" if u.op == "const"
             else None, what + ": unit", show(u) if u is not None
             else "nanoseconds")
        o = k.get("origin")
        if o is not None:
            C.ob(is_const(o, "unix"), what + ": origin", show(o))
    elif g.k == want.k:
        C.ob(False, what, "seconds, not datetimes")
    elif g.op in ("m:round", "m:floor", "m:ceil", "m:normalize"):
        f = g.args[1] if len(g.args) > 1 else None
        C.ob(False if g.op == "m:normalize" or f is not None and
             f.op == "const" and cval(f) not in ("ns", "N", "1ns")
             else None, what, "rounded: " + show(g)[:100])
    else:
        m = scaled(g, want)
        C.ob(m, what, show(g)[:120])


def scaled(n, want):
    """(want * 1e9).astype(datetime64[ns]) and the like."""
    s = 1.0
    unit = None
    while True:
        if n.op in ("m:astype", "m:view"):
            t = n.args[1]
            v = cval(t) if t.op == "const" else None
            if isinstance(v, str) and v.startswith("datetime64["):
                unit = unit or v[11:-1]
            n = n.args[0]
        elif n.op == "binop" and n.meta == "*" and any(
                a.op == "const" for a in n.args):
            a, b = n.args
            if a.op == "const":
                a, b = b, a
            s, n = s * cval(b), a
        elif n.op in ("numpy.round", "numpy.rint", "numpy.around",
                      "m:round"):
            n = n.args[0]
        else:
            break
    if n.k != want.k or unit is None:
        return None
    return abs(s - {"s": 1, "ms": 1e3, "us": 1e6, "ns": 1e9}.get(
        unit, 0)) < 1e-6 * s


def cached(ctx, rep):
    con = "load_dataset(cache=True)"

    def go():
        log = []
        ds = sym("ds", nonnull=True, kind="dataset")

        def exp(I, a, k):
            log.append(("export", dict(zip(("self", "topic", "output_file"),
                                           a), **k), I.st.pc, I.loc))
            return NONE

        def msgs(I, a, k):
            log.append(("load", {}, I.st.pc, I.loc))
            return sym("loaded", nonnull=True)
        I, rd, bag = reader(ctx, None, [("RosbagReader.export", exp),
                                        ("RosbagReader.load_messages", msgs)])

        def opened(I, a, k):
            log.append(("open", {"file": a[0], **k}, I.st.pc, I.loc))
            return ds
        for f in ("open_dataset", "load_dataset"):
            I.extern_hooks["xarray." + f] = opened
        topic = sym("topic", nonnull=True, kind="str")
        r = ctx.run(I, I.getattr(rd, "load_dataset"), [topic, TRUE], {})
        C = M_.Check(rep, DATA, con, I, r.loc if r is not None else None)
        ex = [x for x in log if x[0] == "export"]
        op = [x for x in log if x[0] == "open"]
        if not op or not ex:
            C.ob(None, "written and opened", f"{len(ex)} exports, "
                 f"{len(op)} files opened")
            return
        C.ob(r is not None and r.k == ds.k or None, "result",
             "the opened file")
        for _, d, pc, loc in op:
            for o, v in d.items():
                if o in RAW:
                    C.ob(True if is_const(v, True) or is_none(v) else False,
                         f"read as it was written ({o})", show(v)[:60], loc)
        for _, d, pc, loc in ex:
            C.eq(d.get("topic", NONE), topic, "topic exported")
            f = d.get("output_file", NONE)
            C.ob(f.k == op[0][1]["file"].k or (
                False if is_none(f) else None), "file opened is the one "
                "exported", f"{show(f)[:60]} / "
                f"{show(op[0][1]['file'])[:60]}", loc)
            conds = [(c, p) for c, p in pc if c.op != "inloop"]
            C.ob(True if not conds else exists(conds, f), "exported when the "
                 "file is missing", "; ".join(
                     f"{show(c)[:60]} is {p}" for c, p in conds), loc)

        def mentions(n, k):
            return n.k == k or any(mentions(y, k) for x in n.args for y in
                                   (x if isinstance(x, tuple) else (x,))
                                   if isinstance(y, N))
        f = op[0][1]["file"]
        C.ob(mentions(f, topic.k), "file belongs to the topic",
             show(f)[:100])
    ctx.guarded(DATA, con, go)


# options of open_dataset that leave the data undecoded or leave some out
RAW = ("decode_cf", "decode_times", "mask_and_scale", "decode_timedelta",
       "concat_characters", "decode_coords", "drop_variables", "group")


def exists(conds, f):
    if len(conds) != 1:
        return None
    c, p = conds[0]
    while c.op in ("not", "truth"):
        p = p != (c.op == "not")
        c = c.args[0]
    if c.op in ("m:exists", "m:is_file", "os.path.exists", "os.path.isfile"):
        x = c.args[0]
        if x.op == "attr" and x.meta in ("parent", "parents") and \
                x.args[0].k == f.k:
            return False    # there may be another file
        return not p
    return None


def export(ctx, rep, out):
    con = f"export({'default' if out is None else out})"

    def go():
        log = []
        ds = sym("ds", nonnull=True, kind="dataset")
        topic = sym("topic", nonnull=True, kind="str")

        def load_(I, a, k):
            k = dict(zip(("self", "topic", "cache"), a), **k)
            log.append(("load", k, I.loc))
            return ds
        I, rd, bag = reader(ctx, None, [("RosbagReader.load_dataset",
                                         load_)])

        def nc(I, a, k):
            k = dict(zip(("ds", "path", "mode", "format"), a), **k)
            log.append(("write", k, I.loc))
            return NONE
        I.method_hooks["to_netcdf"] = nc
        I.method_hooks["mkdir"] = lambda I, a, k: (
            log.append(("mkdir", {"path": a[0]}, I.loc)), NONE)[1]
        file = None
        if out == "str":
            file = sym("out", nonnull=True, kind="str")
        elif out == "path":
            file = I.call(I.getattr(N("module", (), "pathlib"), "Path")
                          if False else N("extern", (), "pathlib.Path"),
                          [sym("out", nonnull=True, kind="str")], {})
        r = ctx.run(I, I.getattr(rd, "export"),
                    [topic] + ([file] if file is not None else []), {})
        C = M_.Check(rep, DATA, con, I)
        C.ob(r is not None, "returns", "every path raises"
             if r is None else "")
        ld = [x for x in log if x[0] == "load"]
        wr = [x for x in log if x[0] == "write"]
        C.ob(len(wr) == 1 if wr else None, "one file written", f"{len(wr)}")
        for _, k, loc in ld:
            C.eq(k.get("topic", NONE), topic, "topic")
            c = k.get("cache", const(False))
            C.ob(is_const(c, False) or (False if is_const(c, True)
                                        else None), "reads the bag",
                 show(c))
        for _, k, loc in wr:
            C.ob(k["ds"].k == ds.k or None, "dataset written",
                 show(k["ds"])[:80], loc)
            p = k.get("path", NONE)
            if file is not None:
                b = p
                while b.op in ("pathlib.Path", "builtins.str",
                               "os.fspath") and b.args:
                    b = b.args[0]
                f = file
                while f.op == "pathlib.Path":
                    f = f.args[0]
                C.ob(b.k == f.k or (False if M_.known(b) or b.op in (
                    "m:with_suffix", "m:with_name", "m:with_stem") or not any(
                    x.k == f.k for x in nodes(p)) else None),
                     "file name", show(p)[:80], loc)
            else:
                default(C, I, rd, p, loc)
            for _, m, l in [x for x in log if x[0] == "mkdir"]:
                folder(C, m["path"], p, file, l)
    ctx.guarded(DATA, con, go)


def folder(C, d, p, file, loc):
    """The folder made is the folder of the file, taken from a path."""
    what = "folder of the file"
    if d.op == "attr" and d.meta == "parent":
        b = d.args[0]
        if file is not None and file.op != "pathlib.Path" and \
                b.k == file.k:
            C.ob(False, what, "a string has no parent", loc)
        else:
            C.ob(True, what, show(d)[:80], loc)
    else:
        C.ob(None, what, show(d)[:80], loc)


def default(C, I, rd, p, loc):
    """<folder of the bag>/<name of the bag>.nc"""
    bf = I.getattr(rd, "bag_file")
    what = "default file name"
    if p.op == "m:with_suffix":
        C.ob(p.args[0].k == bf.k and is_const(p.args[1], ".nc"), what,
             show(p)[:80], loc)
        return
    if p.op == "binop" and p.meta == "/" or p.op == "m:joinpath":
        d, f = p.args
    elif p.op == "m:with_name":
        d, f = N("attr", (p.args[0],), "parent"), p.args[1]
    else:
        C.ob(None, what, show(p)[:80], loc)
        return
    C.ob(d.op == "attr" and d.meta == "parent" and d.args[0].k == bf.k
         or None, "default folder", show(d)[:80], loc)
    if f.op == "fstr":
        ps = [cval(x) if x.op == "const" else
              x.meta if x.op == "attr" and x.args[0].k == bf.k else "?"
              for x in f.args]
        C.ob(None if "?" in ps else ps in (["stem", ".", "nc"],
                                           ["stem", ".nc"]), what,
             show(f)[:80], loc)
    else:
        C.ob(None, what, show(f)[:80], loc)


# ------------------------------------------------------------------ writing
def writer(ctx):
    I = ctx.interp()
    w = I.call(ctx.at(I, MOD, "RosbagWriter"), [sym("file",
                                                    nonnull=True)], {})
    bag = sym("bag", nonnull=True)
    I._set_attr1(I.cur(w), "_bag", bag, False)

    def hook(I, a, k):
        if a[0].op == "inst":
            return NotImplemented
        M_.record(I, "write", [I.cur(x) for x in a],
                  {x: I.cur(y) for x, y in k.items()})
        return NONE
    I.method_hooks["write"] = hook
    I.raises, I.effects, I.calls = [], [], []
    return I, I.cur(w), bag


def write(ctx, rep):
    con = "write_transform_stamped"

    def go():
        I, w, bag = writer(ctx)
        names = ("timestamps", "translation", "rotation", "topic", "frame",
                 "child_frame")
        s = {x: sym(x, nonnull=True) for x in names}
        r = ctx.run(I, I.getattr(w, con), [s[x] for x in names], {})
        cs = M_.recorded(I, "write")
        C = M_.Check(rep, WRITE, con, I)
        C.ob(False if r is None else len(cs) == 1 if cs else None,
             "messages are written", f"{len(cs)} call sites")
        if not cs:
            return
        a, k, pc, loc = cs[0]
        C.loc = loc
        d = dict(zip(("bag", "topic", "msg", "t"), a), **k)
        C.eq(d["bag"], bag, "bag")
        C.eq(d.get("topic", NONE), s["topic"], "topic")
        msg = d["msg"]
        C.text(M_.field(I, msg, "header.frame_id"), s["frame"], "frame_id")
        C.text(M_.field(I, msg, "child_frame_id"), s["child_frame"],
               "child_frame_id")
        tok = None
        for p, nm, cn in (("transform.translation", "translation", "xyz"),
                          ("transform.rotation", "rotation", "wxyz")):
            for i, c in enumerate(cn):
                n = M_.peel(M_.field(I, msg, f"{p}.{c}"))
                if n.op != "item" or n.args[1].op != "const":
                    C.ob(None, f"{nm}.{c}", show(n)[:100])
                    continue
                C.ob(cval(n.args[1]) == i, f"{nm}.{c}",
                     f"component {cval(n.args[1])}")
                x = M_.sample(n.args[0])
                if x is None:
                    C.ob(None, f"{nm}.{c}: sample", show(n)[:100])
                    continue
                b = M_.hold(x[0])
                C.ob(b.k == s[nm].k if M_.known(b) else False if M_.cut(b)
                     else None, f"{nm}.{c}: array", show(b)[:80])
                tok = tok or x[1]
                C.ob(x[1] == tok, f"{nm}.{c}: sample", f"{x[1]}")
        st = M_.stamp_secs(M_.field(I, msg, "header.stamp"))
        if st is None:
            C.stamp(M_.field(I, msg, "header.stamp"), const("stamp"),
                    "time stamp")
        elif tok is not None:
            C.ob(True if tok[0] == "loop" else False,
                 "one message for every sample", f"{tok[0]}")
            v, txt = M_.seconds(st, s["timestamps"], tok, False)
            C.ob(v, "time stamp", txt)
        conds = [(c, p) for c, p in pc if c.op != "inloop"]
        skip = [c for c, p in conds if any(
            x.op == "elem" for x in nodes(c))]
        C.ob(False if skip and all(M_.possible(c) for c in skip) else
             None if skip else True, "no sample is skipped",
             show(skip[0])[:80] if skip else "")
    ctx.guarded(WRITE, con, go)


def nodes(n):
    yield n
    for a in n.args:
        for x in (a if isinstance(a, tuple) else (a,)):
            if isinstance(x, N):
                yield from nodes(x)


def write_dataset(ctx, rep, dt, named):
    con = "write_transform_stamped_dataset" + (
        "" if dt else " numeric stamps") + (" named" if named else "")

    def go():
        I, w, bag = writer(ctx)
        got = []
        names = ("timestamps", "translation", "rotation", "topic", "frame",
                 "child_frame")
        I.overrides[PK + "RosbagWriter.write_transform_stamped"] = \
            lambda I, a, k: (got.append((dict(zip(names, a[1:]), **k),
                                         I.st.pc, I.loc)), NONE)[1]
        ds = sym("ds", nonnull=True, kind="dataset")
        s = {x: sym(x, nonnull=True, kind="str") for x in names[3:]}
        v = {"timestamps": const("stamps" if named else "time"),
             "translation": const("trans" if named else "position"),
             "rotation": const("rot" if named else "orientation")}
        r = ctx.run(I, I.getattr(w, "write_transform_stamped_dataset"),
                    [ds] + [s[x] for x in names[3:]], v if named else {})
        C = M_.Check(rep, WRITE, con, I)
        got = [g for g in got if M_.reached(
            g[1], lambda c: M_.kind_test(c, dt)) is not False]
        C.ob(False if r is None else len(got) == 1 if got else None,
             "is written", f"{len(got)} calls")
        for k, pc, loc in got:
            C.loc = loc
            for x in names[3:]:
                C.eq(k.get(x, NONE), s[x], x)
            for x in ("translation", "rotation"):
                n = k.get(x, NONE)
                while n.op == "attr" and n.meta in ("values", "data"):
                    n = n.args[0]
                C.eq(n, I.getitem(ds, v[x]), x)
            n = k.get("timestamps", NONE)
            m = M_.moment(n, dt, True)
            src = I.getitem(ds, v["timestamps"])
            if not isinstance(m, M_.Moment):
                C.ob(False if m else None, "timestamps", m or show(n)[:100])
                continue
            C.eq(m.src, src, "timestamps")
            C.ob(m.index is None, "all timestamps", f"{m.index}")
            C.ob(m.scale is not None and abs(m.scale - 1) < 1e-12,
                 "timestamps in seconds", "datetimes" if m.scale is None
                 else f"times {m.scale:g}")
    ctx.guarded(WRITE, con, go)


def shapes(ctx, rep):
    def case(what, arrs):
        def get(I):
            w = I.call(ctx.at(I, MOD, "RosbagWriter"), [sym("file")], {})
            I._set_attr1(I.cur(w), "_bag", sym("bag", nonnull=True), False)
            return I.getattr(I.cur(w), "write_transform_stamped")
        return c13.Case(ctx, rep, f"write_transform_stamped: {what}", get,
                        ["$timestamps", "$translation", "$rotation",
                         "topic", "w", "b"], arrs)
    V = ("ValueError",)
    ok = {"timestamps": ("n",), "translation": ("n", 3),
          "rotation": ("n", 4)}
    c13.accepts(case("matching shapes", ok), SHAPE)
    for what, d in (
            ("timestamps with two axes", {"timestamps": ("n", 1)}),
            ("fewer translations", {"translation": ("m", 3)}),
            ("translations of four components", {"translation": ("n", 4)}),
            ("one translation", {"translation": (3,)}),
            ("transposed translations", {"translation": (3, "n")}),
            ("translations with three axes", {"translation": ("n", 3, 1)}),
            ("fewer rotations", {"rotation": ("m", 4)}),
            ("rotations of three components", {"rotation": ("n", 3)}),
            ("one rotation", {"rotation": (4,)}),
            ("rotations with three axes", {"rotation": ("n", 4, 1)})):
        c13.rejects(case(what, {**ok, **d}), V, SHAPE)
