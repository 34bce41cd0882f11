"""C40: markers show what they were made from."""
from ..ctx import NONE, TRUE, N, const, cval, is_none, show, sym
from ..ir import is_const, walk
from . import rosmsg as M_

MARK = "marker"
COLOR = "colour"
PATH = "path"
PUB = "published"
MOD = "ros.visualization"
PK = "rigid_body_motion.ros.visualization."


def check(ctx, rep):
    rep.rule(MARK, "every field of the marker is the argument or component "
                   "of an argument specified for it, or the documented "
                   "default")
    rep.rule(COLOR, "component i of the colour is the number written by the "
                    "hexadecimal digits 2i and 2i+1 after the #, over 255")
    rep.rule(PATH, "the points of a path are every k-th sample of the "
                   "translation of the frame with respect to the base, k "
                   "being max(1, ceil(samples / max_points))")
    rep.rule(PUB, "a marker is published if and only if its serialisation "
                  "differs from that of the last one published")
    for scale in ("float", "zero", "vector", "default"):
        marker(ctx, rep, scale)
    types(ctx, rep)
    color(ctx, rep)
    for base in (True, False):
        for topic in (True, False):
            path(ctx, rep, base, topic)
    publisher(ctx, rep)
    publish(ctx, rep)


def marker(ctx, rep, scale):
    con = f"get_marker(scale {scale})"

    def go():
        I = ctx.interp()
        f = sym("frame_id", nonnull=True, kind="str")
        p, o = sym("position", nonnull=True), sym("orientation", nonnull=True)
        h = sym("color", nonnull=True, kind="str")
        s = {"float": const(2.5), "zero": const(0.0), "vector": I.mk("tuple", tuple(
            sym("s" + x, nonnull=True, kind="float") for x in "xyz"))
             }.get(scale)
        r = ctx.run(I, ctx.at(I, MOD, "get_marker"), [], dict(
            {"frame_id": f, "position": p, "orientation": o, "color": h},
            **({"scale": s} if s is not None else {})))
        C = M_.Check(rep, MARK, con, I)
        if r is None:
            C.ob(False, "returns", "every path raises")
            return
        r = I.cur(r)
        I.ended = True
        C.loc = r.loc
        fd = lambda p: M_.field(I, r, p)    # noqa: E731
        C.text(fd("header.frame_id"), f, "frame_id")
        want = [s] * 3 if scale in ("float", "zero") else list(s.args) if s is not \
            None else [const(1.0)] * 3
        C.vec(fd("scale"), want, "scale")
        C.vec(fd("pose.position"), p, "position")
        # given in the order of the message
        for i, c in enumerate("xyzw"):
            C.eq(M_.field(I, fd("pose.orientation"), c),
                 I.getitem(o, const(i)), f"orientation.{c}")
        for i, c in enumerate("rgba"):
            C.ob(*digits(M_.field(I, fd("color"), c), h, i))
    ctx.guarded(MARK, con, go)


def types(ctx, rep):
    for t in (None, 0, 2):
        con = f"get_marker(type {t})"

        def go():
            I = ctx.interp()
            r = ctx.run(I, ctx.at(I, MOD, "get_marker"), [],
                        {} if t is None else {"marker_type": const(t)})
            C = M_.Check(rep, MARK, con, I)
            if r is None:
                C.ob(False, "returns", "every path raises")
                return
            n = M_.field(I, I.cur(r), "type")
            if t is not None:
                C.ob(False if n.op == "extern" else M_.same(n, const(t)),
                     "type", show(n))
                return
            strip = n.op == "extern" and n.meta.endswith(
                "Marker.LINE_STRIP") or n.op == "attr" and \
                n.meta == "LINE_STRIP" or is_const(n, 4)
            C.ob(True if strip else False if n.op == "const" or
                 n.op == "extern" else None, "default type", show(n))
        ctx.guarded(MARK, con, go)


def offset(n):
    """(string, characters dropped from the front, # dropped) of a node."""
    d, hash_ = 0, False
    while True:
        if n.op in ("m:lstrip", "m:strip", "m:removeprefix") and len(
                n.args) == 2 and is_const(n.args[1], "#"):
            hash_ = True
            n = n.args[0]
        elif n.op == "m:replace" and len(n.args) == 3 and is_const(
                n.args[1], "#") and is_const(n.args[2], ""):
            hash_ = True
            n = n.args[0]
        elif n.op == "item" and n.args[1].op == "slice" and n.args[1].args[
                0].op == "const" and all(
                    is_none(x) for x in n.args[1].args[1:]):
            d += cval(n.args[1].args[0]) or 0
            n = n.args[0]
        elif n.op in ("builtins.str", "m:lower", "m:upper", "m:casefold"):
            n = n.args[0]
        elif n.op in ("m:rjust", "m:ljust", "m:zfill", "m:center") and len(
                n.args) > 1 and n.args[1].op == "const" and \
                cval(n.args[1]) <= 8:
            n = n.args[0]   # not longer than the colour
        elif n.op in ("m:lstrip", "m:strip", "m:rstrip") and len(
                n.args) == 2 and n.args[1].op == "const" and set(
                str(cval(n.args[1])).lower()) & set("0123456789abcdef"):
            raise ValueError(f"digits {cval(n.args[1])} are dropped")
        else:
            return n, d, hash_


def digits(n, h, i):
    """Is n component i of the colour h?"""
    what = f"color.{'rgba'[i]}"
    txt = show(n)[:120]
    if n.op == "const":
        return False, what, txt
    if not (n.op == "binop" and n.meta == "/" and n.args[1].op == "const"):
        if n.op == "builtins.int" or n.op == "item":
            return False, what, "not between 0 and 1: " + txt
        return None, what, txt
    d = cval(n.args[1])
    n = n.args[0]
    while n.op == "builtins.float":
        n = n.args[0]
    if n.op == "item" and n.args[0].op in (
            "builtins.bytes.fromhex", "builtins.bytearray.fromhex",
            "binascii.unhexlify", "binascii.a2b_hex") and \
            n.args[1].op == "const" and type(cval(n.args[1])) is int:
        # two digits for every byte
        try:
            x, k, hash_ = offset(n.args[0].args[0])
        except ValueError as e:
            return False, what, str(e)
        j = cval(n.args[1])
        if x.k != h.k:
            return None, what, txt
        if d != 255:
            return False, what, txt
        # the colour has four bytes
        k += 2 * (j if j >= 0 else j + 4) - (0 if hash_ else 1)
        return k == 2 * i, what, txt
    if n.op != "builtins.int" or len(n.args) != 2 or not (
            n.args[1].op == "const"):
        return None, what, txt
    if cval(n.args[1]) != 16:
        return False, what, txt
    if d != 255:
        return False, what, txt
    s = n.args[0]
    if s.op == "const" and h.op != "const":
        return False, what, txt
    if s.op == "item" and s.args[1].op == "slice" and all(
            x.op == "const" for x in s.args[1].args):
        a, b, c = map(cval, s.args[1].args)
        try:
            x, k, hash_ = offset(s.args[0])
        except ValueError as e:
            return False, what, str(e)
        if x.k != h.k or c not in (None, 1):
            return (False if x.op == "const" != h.op else None), what, txt
        k += (a or 0) - (0 if hash_ else 1)
        if b is None or a is not None and a < 0:
            return None, what, txt
        return k == 2 * i and b - (a or 0) == 2, what, txt
    return None, what, txt


def color(ctx, rep):
    con = "hex_to_rgba"

    def go():
        I = ctx.interp()
        h = sym("h", nonnull=True, kind="str")
        r = ctx.run(I, ctx.at(I, MOD, con), [h], {})
        C = M_.Check(rep, COLOR, con, I, r.loc if r is not None else None)
        if r is None:
            C.ob(False, "returns", "every path raises")
            return
        r = I.cur(r)
        C.ob(M_.ctor(M_.base(r)) == "ColorRGBA" or None, "message type",
             show(r)[:60])
        for i, c in enumerate("rgba"):
            C.ob(*digits(M_.field(I, r, c), h, i))
    ctx.guarded(COLOR, con, go)


# -------------------------------------------------------------------- paths
class Path:
    def __init__(self, ctx, base, topic, **kw):
        I = self.I = ctx.interp()
        self.f = ctx.frame("f")
        self.b = ctx.frame("b") if base else NONE
        self.tr, self.mp = sym("tr", nonnull=True, kind="ndarray"), sym(
            "max_points", nonnull=True, kind="int")
        self.scale = sym("scale", nonnull=True, kind="float")
        self.topic = const("/some/topic") if topic else None
        self.interval = sym("interval", nonnull=True, kind="float")
        self.looked, self.pubs, self.colors = [], [], []
        I.overrides[ctx.C.qualname + ".lookup_transform"] = self.look
        I.extern_hooks["rospy.Publisher"] = self.pub
        self.color = sym("color", nonnull=True, kind="str")
        kw = {"max_points": self.mp, "scale": self.scale, "color": self.color,
              "publish_interval": self.interval, **kw}
        if topic:
            kw["topic"] = self.topic
        C = ctx.at(I, MOD, "ReferenceFrameMarkerPublisher")
        self.o = ctx.run(I, C, [self.f] + ([self.b] if base else []), kw)

    def look(self, I, a, k):
        self.looked.append((list(a), dict(k), I.st.pc))
        return I.mk("tuple", (self.tr, sym("rot"), sym("ts")))

    def pub(self, I, a, k):
        d = dict(zip(("name", "data_class"), a), **k)
        self.pubs.append((d, I.loc))
        return sym("publisher", nonnull=True)


def path(ctx, rep, base, topic):
    con = "ReferenceFrameMarkerPublisher" + ("" if base else
                                             " default base") + (
        " topic given" if topic else "")

    def go():
        B = Path(ctx, base, topic)
        I = B.I
        C = M_.Check(rep, PATH, con, I)
        if B.o is None:
            C.ob(False, "constructed", "every path raises")
            return
        want = B.b if base else I.getattr(B.f, "parent")
        C.ob(len(B.looked) == 1 if B.looked else None, "transform looked up",
             len(B.looked))
        for a, k, pc in B.looked:
            d = dict(zip(("self", "to_frame"), a), **k)
            C.eq(d["self"], B.f, "translation of")
            C.eq(I.cur(d.get("to_frame", NONE)), want,
                 "translation with respect to")
        m = I.getattr(I.cur(B.o), "marker")
        I.ended = True
        fd = lambda p: M_.field(I, m, p)    # noqa: E731
        C.text(fd("header.frame_id"), I.getattr(want, "name"),
               "frame_id is the base")
        C.eq(fd("scale.x"), B.scale, "line width")
        for i, c in enumerate("rgba"):
            C.ob(*digits(M_.field(I, fd("color"), c), B.color, i))
        t = fd("type")
        C.ob(True if t.op in ("extern", "attr") and (
            t.meta.endswith("LINE_STRIP")) or is_const(t, 4) else
            False if t.op in ("extern", "const") else None, "line strip",
            show(t))
        points(C, I, B, fd("points"))
        C.ob(len(B.pubs) == 1 if B.pubs else None, "publisher created",
             len(B.pubs))
        for d, loc in B.pubs:
            n = d.get("name", NONE)
            if topic and n.op == "fstr":
                C.ob(False, "topic", show(n), loc)
            elif topic:
                C.eq(n, B.topic, "topic")
            else:
                C.ob(*default_topic(I, B, n))
        C.eq(I.getattr(I.cur(B.o), "publish_interval"), B.interval,
             "publish_interval")
    ctx.guarded(PATH, con, go)


def default_topic(I, B, n):
    what = "default topic /<frame>/path"
    if n.op == "fstr" and len(n.args) == 3:
        a, f, b = n.args
        r = M_.same(f, I.getattr(B.f, "name"))
        ok = is_const(a, "/") and is_const(b, "/path")
        return (r if ok else False), what, show(n)
    if n.op == "fstr":
        return False, what, show(n)
    return (False if n.op == "const" else None), what, show(n)[:80]


def points(C, I, B, n):
    what = "points"
    n = I.cur(n)
    if n.op in ("builtins.list",):
        n = n.args[0]
    if not (n.op == "list" and len(n.args) == 1 and n.args[0].op == "mapseg"):
        C.ob(False if n.op == "list" and not n.args or n.op == "attr" and
             M_.ctor(M_.base(n.args[0])) else None, what, show(n)[:120])
        return
    src, e, cond = n.args[0].args
    C.ob(is_const(cond, True) or (False if M_.possible(cond) else None),
         "every sample of the step",
         show(cond)[:80], n.loc)
    if M_.ctor(M_.base(e)) != "Point":
        C.ob(None, what, show(e)[:100], n.loc)
        return
    tok = None
    for i, c in enumerate("xyz"):
        x = M_.peel(M_.field(I, e, c))
        if x.op != "item" or x.args[1].op != "const":
            C.ob(False if x.op == "const" else None, f"point.{c}",
                 show(x)[:80], n.loc)
            continue
        C.ob(cval(x.args[1]) in (i, i - 3), f"point.{c}",
             f"component {cval(x.args[1])}", n.loc)
        tok = tok or x.args[0]
        C.ob(x.args[0].k == tok.k or None, f"point.{c} of the same sample",
             show(x)[:60], n.loc)
    if tok is None:
        return
    step = None
    if tok.op == "elem":
        s = tok.args[0]
        ix = s.args[1] if s.op == "item" else None
        if ix is not None and ix.op == "tuple" and ix.args and all(
                x.op == "slice" and all(is_none(y) for y in x.args) or
                x.op == "ellipsis" for x in ix.args[1:]):
            ix = ix.args[0]
        if ix is not None and ix.op == "slice":
            a, b, step = ix.args
            C.ob(all(is_none(x) or is_const(x, 0) for x in (a, b)) or
                 (False if is_none(b) or a.op == "const" else None),
                 "of all samples", show(ix)[:80], n.loc)
            s = s.args[0]
        elif ix is not None:
            C.ob(None, "of all samples", show(ix)[:80], n.loc)
            return
        C.eq(s, B.tr, "of the translation")
        step = step if step is not None and not is_none(step) else const(1)
    elif tok.op == "item" and tok.args[1].op == "elem" and tok.args[1].args[
            0].op in ("range", "builtins.range"):
        C.eq(tok.args[0], B.tr, "of the translation")
        a = list(tok.args[1].args[0].args)
        a = [const(0)] + a if len(a) == 1 else a
        C.ob(True if is_const(a[0], 0) and count(B, a[1]) else None,
             "of all samples", show(tok)[:80], n.loc)
        step = a[2] if len(a) > 2 else const(1)
    else:
        C.ob(None, "of the translation", show(tok)[:80], n.loc)
        return
    C.ob(*decimation(B, step))


def count(B, n):
    """Is n the number of samples?"""
    if n.op == "builtins.len":
        return n.args[0].k == B.tr.k
    return n.op == "item" and n.args[0].op == "attr" and n.args[
        0].meta == "shape" and is_const(n.args[1], 0) and n.args[0].args[
            0].k == B.tr.k


def decimation(B, n):
    what = "step between samples"
    r = steps(B, n)
    if r is None and not (any(x.k == B.mp.k for x in walk(n)) and any(
            count(B, x) for x in walk(n))):
        r = "const"
    txt = {"ceil>=1": "max(1, ceil(samples / max_points))",
           "ceil": "ceil, zero without samples",
           "floor": "rounded down: more than max_points points",
           "floor>=1": "rounded down: more than max_points points",
           "floor+1": "drops samples although there are only max_points",
           "floor+1>=1": "drops samples although there are only max_points",
           "round": "rounded: more than max_points points",
           "round>=1": "rounded: more than max_points points",
           "const": "does not depend on samples and max_points"}.get(r, show(n)[:120])
    return True if r in ("ceil>=1", "ceil") else None if r is None else \
        False, what, txt


def steps(B, n):
    """Class of a step: how it rounds samples / max_points."""
    while n.op in ("builtins.int", "m:astype") and n.args and not div(
            B, n.args[0]):
        n = n.args[0]
    if n.op == "const":
        return "const"
    if n.op in ("builtins.max", "numpy.maximum", "numpy.max"):
        a = list(n.args)
        if len(a) == 1 and a[0].op in ("list", "tuple"):
            a = list(a[0].args)
        if len(a) == 2 and any(is_const(x, 1) for x in a):
            r = steps(B, a[1] if is_const(a[0], 1) else a[0])
            return r + ">=1" if r and not r.endswith(">=1") and \
                r != "const" else r
        return None
    if n.op in ("math.ceil", "numpy.ceil") and div(B, n.args[0]):
        return "ceil"
    if n.op in ("math.floor", "numpy.floor", "builtins.int") and div(
            B, n.args[0]):
        return "floor"
    if n.op in ("builtins.round", "numpy.round", "numpy.rint") and div(
            B, n.args[0]):
        return "round"
    if n.op == "unop" and n.meta == "-":
        x = n.args[0]
        if x.op == "binop" and x.meta == "//" and x.args[0].op == "unop" \
                and x.args[0].meta == "-" and count(B, x.args[0].args[0]) \
                and x.args[1].k == B.mp.k:
            return "ceil"
        return None
    if n.op == "binop" and n.meta == "//" and n.args[1].k == B.mp.k:
        a = lin(B, n.args[0])
        if a == {"n": 1}:
            return "floor"
        if a == {"n": 1, "p": 1, 1: -1}:
            return "ceil"
        return None
    if n.op == "binop" and n.meta == "+":
        for x, y in (n.args, n.args[::-1]):
            if is_const(y, 1) and x.op == "binop" and x.meta == "//" and \
                    x.args[1].k == B.mp.k:
                a = lin(B, x.args[0])
                if a == {"n": 1, 1: -1}:
                    return "ceil"
                if a == {"n": 1}:
                    return "floor+1"
        return None
    if n.op == "phi":
        # more samples than points ?
        c, a, b = n.args
        pol = True
        while c.op == "not":
            c, pol = c.args[0], not pol
        if c.op == "cmp" and c.meta in ("<", "<=", ">", ">="):
            x, y = (lin(B, z) for z in c.args)
            if x is None or y is None:
                return None
            d = {k: x.get(k, 0) - y.get(k, 0) for k in {*x, *y}}
            d = {k: v for k, v in d.items() if v}
            if c.meta in ("<", "<="):
                d = {k: -v for k, v in d.items()}
            if not pol:
                d, a, b = d, b, a
            if d == {"n": 1, "p": -1}:          # n > p, n >= p
                r, s = steps(B, a), steps(B, b)
            elif d == {"n": -1, "p": 1}:
                r, s = steps(B, b), steps(B, a)
                a, b = b, a
            else:
                return None
            if is_const(b, 1) or s in ("ceil", "ceil>=1"):
                return r + ">=1" if r and not r.endswith(">=1") and \
                    r != "const" else r
        return None
    return None


def div(B, n):
    """samples / max_points"""
    return n.op == "binop" and n.meta == "/" and count(B, n.args[0]) and \
        n.args[1].k == B.mp.k


def lin(B, n):
    if count(B, n):
        return {"n": 1}
    if n.k == B.mp.k:
        return {"p": 1}
    if n.op == "const" and isinstance(cval(n), int):
        return {1: cval(n)}
    if n.op == "binop" and n.meta in ("+", "-"):
        a, b = lin(B, n.args[0]), lin(B, n.args[1])
        if a is None or b is None:
            return None
        s = 1 if n.meta == "+" else -1
        r = {k: a.get(k, 0) + s * b.get(k, 0) for k in {*a, *b}}
        return {k: v for k, v in r.items() if v}
    return None


# --------------------------------------------------------------- publishing
def bench(ctx):
    I = ctx.interp()
    pubs = []

    def pub(I, a, k):
        pubs.append((dict(zip(("name", "data_class"), a), **k), I.loc))
        return sym("publisher", nonnull=True)
    I.extern_hooks["rospy.Publisher"] = pub
    m, t = sym("marker", nonnull=True), sym("topic", nonnull=True, kind="str")
    iv = sym("interval", nonnull=True, kind="float")
    o = ctx.run(I, ctx.at(I, MOD, "BaseMarkerPublisher"), [m, t],
                {"publish_interval": iv})
    return I, o, m, t, iv, pubs


def publisher(ctx, rep):
    con = "BaseMarkerPublisher"

    def go():
        I, o, m, t, iv, pubs = bench(ctx)
        C = M_.Check(rep, PUB, con, I)
        C.ob(len(pubs) == 1 if pubs else None, "publisher created", len(pubs))
        for d, loc in pubs:
            C.eq(d.get("name", NONE), t, "topic")
        C.eq(I.getattr(I.cur(o), "publish_interval"), iv, "publish_interval")
    ctx.guarded(PUB, con, go)


def publish(ctx, rep):
    con = "BaseMarkerPublisher.publish"

    def go():
        I, o, m, t, iv, pubs = bench(ctx)
        sent = []

        def ser(I, a, k):
            if a[0].op == "inst" or len(a) < 2:
                return NotImplemented
            I.set_content(a[1], N("serialized", (a[0],), uid=a[1].uid))
            return NONE

        def send(I, a, k):
            if a[0].op == "inst" or len(a) < 2:
                return NotImplemented
            sent.append((a[1], I.st.pc, I.loc))
            return NONE
        I.method_hooks["serialize"] = ser
        I.method_hooks["publish"] = send
        # whatever was published last
        last = sym("last", nonnull=True)
        mine = [nm for nm, v in I.cur(o).args if any(
            x.op.startswith("io.") or is_const(x, b"") for x in walk(v))
            or is_none(v) and nm != "_thread"]
        C = M_.Check(rep, PUB, con, I)
        if len(mine) != 1:
            C.ob(None, "serialisation kept", str(mine))
            return
        I._set_attr1(I.cur(o), mine[0], last, False)
        r = ctx.run(I, I.getattr(I.cur(o), "publish"), [], {})
        if r is None:
            C.ob(False, "returns", "every path raises")
            return
        C.ob(len(sent) == 1, "publishes", f"{len(sent)} calls")
        if len(sent) != 1:
            return
        x, pc, loc = sent[0]
        C.ob(False if x.op == "serialized" or x.k == last.k else
             M_.same(x, m), "marker published", show(x)[:80], loc)
        cs = [(c, p) for c, p in pc if c.op != "inloop"]
        C.ob(True if cs else False, "only if it has changed",
             "; ".join(show(c)[:100] for c, p in cs), loc)
        verdicts = [changed(c, p, m, last) for c, p in cs]
        C.ob(True if cs and all(v is True for v in verdicts) else
             False if False in verdicts else None, "whenever it has changed",
             "; ".join(show(c)[:120] for c, p in cs), loc)
        end = I.getattr(I.cur(o), mine[0])
        held = [end] if end.op != "phi" else [
            end.args[1 if any(c.k == end.args[0].k and p for c, p in cs)
                     else 2]]
        v = content(held[0])
        C.ob(True if v.op == "serialized" and v.args[0].k == m.k else
             False if v.k == last.k or shortened(v) else None, "remembers it",
             show(end)[:120], loc)
    ctx.guarded(PUB, con, go)


def shortened(v):
    """Part of a serialisation."""
    while v.op in ("io.BytesIO", "m:getvalue", "builtins.bytes",
                   "m:getbuffer"):
        if not v.args:
            return False
        v = v.args[0]
    return v.op == "item" and v.args[1].op == "slice" and any(
        x.op == "const" and not is_none(x) and cval(x) != 0
        for x in v.args[1].args[:2])


def content(n):
    while n.op in ("m:getvalue", "m:getbuffer", "builtins.bytes", "m:read"):
        n = n.args[0]
    return n


LOSSY = ("builtins.len", "m:tell", "m:__len__", "builtins.hash",
         "zlib.crc32", "zlib.adler32", "builtins.sum", "builtins.bool",
         "sys.getsizeof", "m:startswith")


def changed(c, pol, m, last):
    """Does the condition say that the serialisation is a new one?"""
    if c.op == "not":
        return changed(c.args[0], not pol, m, last)
    if c.op == "cmp" and c.meta in ("==", "!="):
        if all(x.op in LOSSY and {content(x.args[0]).op for x in c.args} &
               {"serialized"} for x in c.args):
            return False    # different contents may agree in that
        a, b = (content(x) for x in c.args)
        if a.k == b.k and a.op == "serialized":
            return False
        if {a.k, b.k} == {x.k for x in (a, b) if x.op == "serialized" or
                          x.k == last.k} and a.k != b.k:
            return (c.meta == "!=") == pol
    return None
