"""C41: the playback widget plays a recording at its pace."""
from ..ctx import NONE, N, const, cval, is_none, show, sym
from ..ir import is_const, walk
from . import rosmsg as M_

PACE = "pace"
RANGE = "range"
MOVE = "buttons"
LINK = "linked"
MOD = "ros.utils"


def check(ctx, rep):
    rep.rule(PACE, "the interval of the play button is the mean difference "
                   "of the time stamps in milliseconds times step over speed")
    rep.rule(RANGE, "slider and play button run from 0 to the last sample")
    rep.rule(MOVE, "the buttons move by skip (by default step) samples in "
                   "their direction wherever that is possible")
    rep.rule(LINK, "the index published is the value of the slider, which "
                   "follows the play button")
    for given in (False, True):
        for skip in (False, True):
            play(ctx, rep, given, skip)


class Bench:
    def __init__(self, ctx, given, skip):
        I = self.I = ctx.interp()
        self.made = {}
        self.clicks, self.links, self.outs = [], [], []
        for w in ("IntSlider", "Button", "Play", "HBox", "Layout", "VBox"):
            for p in ("ipywidgets.widgets.", "ipywidgets."):
                I.extern_hooks[p + w] = self.widget(w)
        I.method_hooks["on_click"] = self.on_click
        for p in ("ipywidgets.widgets.", "ipywidgets."):
            for m in ("jslink", "link", "jsdlink", "dlink"):
                I.extern_hooks[p + m] = self.link
            for m in ("interactive_output", "interactive", "interact"):
                I.extern_hooks[p + m] = self.out
        self.shows, self.outsyms = [], []
        for d in ("IPython.core.display", "IPython.display",
                  "IPython.core.display_functions"):
            I.extern_hooks[d + ".display"] = self.show
        self.pub = sym("publisher", nonnull=True)
        self.own = I.getattr(self.pub, "timestamps")
        self.ts = sym("stamps", nonnull=True) if given else self.own
        self.step = sym("step", nonnull=True, kind="int")
        self.speed = sym("speed", nonnull=True, kind="float")
        self.skip = sym("skip", nonnull=True, kind="int") if skip else NONE
        kw = {"step": self.step, "speed": self.speed}
        if given:
            kw["timestamps"] = self.ts
        if skip:
            kw["skip"] = self.skip
        self.r = ctx.run(I, ctx.at(I, MOD, "play_publisher"), [self.pub], kw)

    def widget(self, w):
        def f(I, a, k):
            n = len(self.made.setdefault(w, []))
            x = sym(f"{w}{n}", nonnull=True)
            self.made[w].append((x, list(a), dict(k), I.loc))
            return x
        return f

    def on_click(self, I, a, k):
        self.clicks.append((a[0], a[1], I.loc))
        return NONE

    def link(self, I, a, k):
        self.links.append((list(a), I.loc))
        return NONE

    def out(self, I, a, k):
        self.outs.append((list(a), dict(k), I.loc))
        self.outsyms.append(sym("output", nonnull=True))
        return self.outsyms[-1]

    def show(self, I, a, k):
        self.shows.append((list(a), I.loc))
        return NONE


def play(ctx, rep, given, skip):
    con = "play_publisher" + (" stamps given" if given else "") + (
        " skip given" if skip else "")

    def go():
        B = Bench(ctx, given, skip)
        I = B.I
        C = M_.Check(rep, RANGE, con, I)
        if B.r is None:
            C.ob(False, "returns", "every path raises")
            return
        sl, pl = (B.made.get(x, []) for x in ("IntSlider", "Play"))
        C.ob(len(sl) == 1 if sl else None, "one slider", len(sl))
        C.ob(len(pl) == 1 if pl else None, "one play button", len(pl))
        if len(sl) != 1 or len(pl) != 1:
            return
        s, p = sl[0], pl[0]
        B.slider = s[0]
        for nm, w in (("slider", s), ("play button", p)):
            C.loc = w[3]
            k = w[2]
            C.ob(*first(B, s[0], k.get("min", const(0)), nm))
            C.ob(*last(B, s, k.get("max", const(100)), nm))
        C.eq(p[2].get("step", const(1)), B.step, "step of the play button")
        C.ob(*start(s[2]))
        shown(C, B)
        C = M_.Check(rep, PACE, con, I, p[3])
        C.ob(*pace(B, p[2].get("interval", const(100))))
        buttons(M_.Check(rep, MOVE, con, I), B, s)
        links(M_.Check(rep, LINK, con, I), B, s, p)
    ctx.guarded(RANGE, con, go)


def shown(C, B):
    """Slider, buttons and output are displayed."""
    if not B.shows:
        return
    C.loc = B.shows[0][1]
    kids = {}
    for w in ("HBox", "VBox"):
        for x, a, k, _ in B.made.get(w, []):
            kids[x.k] = [*a, *k.values()]
    seen, todo = set(), [x for a, _ in B.shows for x in a]
    while todo:
        x = todo.pop()
        if x.op in ("tuple", "list"):
            todo += x.args
        elif x.k not in seen:
            seen.add(x.k)
            todo += kids.get(x.k, [])
            if not M_.known(x):
                return
    for w in ("IntSlider", "Button", "Play"):
        for x, _, _, loc in B.made.get(w, []):
            C.loc = loc
            C.ob(x.k in seen, f"{w} is displayed", show(x))
    for _, _, loc in B.outs:
        C.loc = loc
        C.ob(any(x.k in seen for x in B.outsyms), "output is displayed", "")


def start(k):
    v = k.get("value", const(0))
    return (cval(v) == 0 if v.op == "const" else None), \
        "starts with the first sample", show(v)


def first(B, s, n, nm):
    if n.op == "attr" and n.args[0].k == s.k:
        return n.meta == "min", f"first of the {nm}", show(n)
    return (cval(n) == 0 if n.op == "const" else None), \
        f"first of the {nm}", show(n)


def size(B, n):
    """Is n the number of samples?"""
    of = None
    if n.op == "builtins.len":
        of = n.args[0]
    elif n.op == "attr" and n.meta == "size":
        of = n.args[0]
    elif n.op == "item" and n.args[0].op == "attr" and n.args[
            0].meta == "shape" and is_const(n.args[1], 0):
        of = n.args[0].args[0]
    if of is None:
        return False
    if M_.hold(of).k == B.ts.k:
        return True
    m = M_.moment(of, True, True)
    return hasattr(m, "src") and m.src.k == B.ts.k


def partial(B, n):
    """Does n hold only some of the stamps?"""
    while n.op in ("numpy.asarray", "numpy.array"):
        n = n.args[0]
    if n.op != "item" or M_.hold(n.args[0]).k != B.ts.k:
        return False
    s = n.args[1]
    return s.op == "slice" and any(not is_none(a) and not is_const(
        a, (0, None, 1)[i]) for i, a in enumerate(s.args))


def last(B, s, n, nm):
    what = f"last of the {nm}"
    if n.op == "attr" and n.args[0].k == s[0].k:
        return n.meta == "max", what, show(n)
    if n.op == "binop" and n.meta == "-" and size(B, n.args[0]):
        return (is_const(n.args[1], 1) if n.args[1].op == "const" else
                None), what, show(n)
    if n.op == "binop" and n.meta == "-" and n.args[0].op == "builtins.len" \
            and partial(B, n.args[0].args[0]):
        return (False if is_const(n.args[1], 1) else None), what, show(n)
    if n.op != "item" and any(x.k in (B.step.k, B.speed.k, B.skip.k)
                              for x in walk(n)):
        # the specified value depends on the number of samples alone
        return False, what, show(n)
    return (False if size(B, n) or n.op == "const" else None), what, show(n)


def pace(B, n):
    """scale * mean difference / speed * step"""
    what = "interval between messages"
    txt = show(n)[:160]
    try:
        f, e = factors(B, n)
    except ValueError as x:
        return (None if str(x) == "?" else False), what, str(x) \
            if str(x) != "?" else txt
    if e.get("span") == 1 and e.get("n") == -1:
        e = {k: v for k, v in e.items() if k not in ("span", "n")}
        e["diff"] = e.get("diff", 0) + 1
    if "span" in e or "n" in e:
        return None, what, txt
    if e != {"diff": 1, "step": 1, "speed": -1}:
        return False, what, f"{e}: {txt}"
    ok = abs(f - 1e3) < 1e-9
    return ok, what, f"{f:g} times the seconds between messages"


def factors(B, n):
    """(number, {factor: power}) of a product."""
    if n.op == "const" and isinstance(cval(n), (int, float)):
        return float(cval(n)), {}
    if n.k == B.step.k:
        return 1.0, {"step": 1}
    if n.k == B.speed.k:
        return 1.0, {"speed": 1}
    if n.op in ("builtins.int", "builtins.float", "builtins.round",
                "numpy.round", "numpy.float64") and n.args:
        return factors(B, n.args[0])
    if n.op == "m:item" and len(n.args) == 1:
        return factors(B, n.args[0])
    if n.op in ("builtins.max", "builtins.min", "numpy.maximum",
                "numpy.minimum", "numpy.clip") and any(
            x.k in (B.speed.k, B.step.k) for x in n.args) and any(
            x.op == "const" for x in n.args):
        raise ValueError(f"limited: {show(n)[:60]}")
    if n.op == "binop" and n.meta in ("*", "/"):
        (f, d), (g, e) = (factors(B, x) for x in n.args)
        for x, y in ((d, n.args[0]), (e, n.args[1])):
            if y.op in ("builtins.int", "builtins.round") and len(
                    y.args) == 1 and "diff" in x:
                raise ValueError("milliseconds rounded before they are "
                                 f"multiplied: {show(n)[:60]}")
        s = 1 if n.meta == "*" else -1
        r = {k: d.get(k, 0) + s * e.get(k, 0) for k in {*d, *e}}
        return f * g if s > 0 else f / g, {k: v for k, v in r.items() if v}
    if n.op == "binop" and n.meta == "-" and last(B, (B.slider,), n, "")[
            0]:
        return 1.0, {"n": 1}
    if n.op == "binop" and n.meta == "-":
        return span(B, n)
    if n.op in ("numpy.mean", "m:mean", "numpy.median") and n.args:
        if n.op == "numpy.median":
            raise ValueError("the median of the differences")
        return difference(B, n.args[0])
    if n.op in ("numpy.max", "numpy.min", "m:max", "m:min", "numpy.sum",
                "m:sum"):
        raise ValueError(f"not the mean of the differences: {n.op}")
    raise ValueError("?")


def span(B, n):
    """Last minus first stamp in seconds."""
    f = []
    for x, i in zip(n.args, (-1, 0)):
        x = whole(x, i)
        m = M_.moment(x, True, True) if x is not None else None
        if m is None or isinstance(m, str) or m.src.k != B.ts.k or \
                m.scale is None:
            raise ValueError("?")
        f.append(m.scale)
    if f[0] != f[1]:
        raise ValueError("?")
    return f[0], {"span": 1}


def whole(x, i):
    """The array of which x is the item i."""
    if x.op == "item":
        return x.args[0] if is_const(x.args[1], i) else None
    if x.op == "phi":
        a = [whole(y, i) for y in x.args[1:]]
        return None if None in a else N("phi", (x.args[0], *a))
    return None


def difference(B, n):
    f = 1.0
    while True:
        if n.op == "binop" and n.meta in ("*", "/") and n.args[1].op == \
                "const":
            v = cval(n.args[1])
            f = f * v if n.meta == "*" else f / v
            n = n.args[0]
        elif n.op in ("numpy.abs", "numpy.asarray"):
            n = n.args[0]
        else:
            break
    ticks = None
    if n.op == "binop" and n.meta == "/" and n.args[1].op in (
            "numpy.timedelta64",):
        t = [cval(a) for a in n.args[1].args if a.op == "const"]
        u = {"s": 1.0, "ms": 1e3, "us": 1e6, "ns": 1e9}
        if len(t) == 2 and t[1] in u:
            ticks, n = u[t[1]] / t[0], n.args[0]
    elif n.op == "m:astype" and n.args[0].op == "m:astype" and n.args[
            0].args[1].op == "const":
        u = {"timedelta64[ns]": 1e9, "timedelta64[us]": 1e6,
             "timedelta64[ms]": 1e3, "timedelta64[s]": 1.0}
        t = cval(n.args[0].args[1])
        if t in u:
            ticks, n = u[t], n.args[0].args[0]
    elif n.op == "m:astype" and n.args[0].op in DIFF and M_.fixed_ns(
            n.args[0].args[0]):
        ticks, n = 1e9, n.args[0]
    if n.op not in DIFF:
        raise ValueError("?")
    if len(n.args) > 1 and n.op == "numpy.diff" and not is_const(
            n.args[1], 1, -1, 0):
        raise ValueError("?")
    m = M_.moment(n.args[0], True, True)
    if isinstance(m, str):
        raise ValueError(m)
    if m is None or m.src.k != B.ts.k:
        raise ValueError("?" if m is None or not M_.known(m.src) else
                         "stamps of " + show(m.src))
    if m.scale is None:
        if ticks is None:
            raise ValueError("?")
        return f * ticks, {"diff": 1}
    return f * m.scale, {"diff": 1}


DIFF = ("numpy.diff", "numpy.ediff1d")


# ------------------------------------------------------------------ buttons
def buttons(C, B, s):
    I = B.I
    C.ob(len(B.clicks) == 2 if B.clicks else None, "two buttons",
         len(B.clicks))
    if len(B.clicks) != 2:
        return
    dirs = []
    for btn, cb, loc in B.clicks:
        C.loc = loc
        st, I.st = I.st, I.st.copy()
        I.effects = []
        val = I.getattr(s[0], "value")
        r = B_run(I, cb, btn)
        new = I.getattr(I.cur(s[0]), "value") if r is not None else None
        I.st = st
        if new is None:
            C.ob(False, "button works", "every path raises")
            continue
        mids = leaves(B, s, new, 1)
        ds = {amount(B, val, x) for x in mids}
        C.ob(None if None in ds or len(ds) != 1 else True, "moves by one "
             "amount", ", ".join(map(str, ds)))
        if len(ds) != 1 or None in ds:
            continue
        sign, by = ds.pop()
        dirs.append(sign)
        nm = {1: "forward", -1: "backward", 0: "button"}[sign]
        want = "skip" if not is_none(B.skip) else "step"
        C.ob(sign != 0 and by == want, f"{nm} moves by {want}",
             f"{by} samples")
        edge = leaves(B, s, new, 0 if sign > 0 else 2)
        de = {amount(B, val, x) for x in edge}
        C.ob(None if None in de else de == {(sign, by)},
             f"{nm} moves away from the other end", str(de))
    if len(dirs) == 2:
        C.ob(sorted(dirs) == [-1, 1], "one forward, one backward", str(dirs))


def B_run(I, cb, btn):
    from ..interp import Dead
    try:
        return I.call(cb, [btn], {})
    except Dead:
        return None


def leaves(B, s, n, pos):
    """Values of n when the slider is at min (0), between (1) or at max."""
    if n.op in ("builtins.min", "builtins.max", "numpy.clip",
                "numpy.minimum", "numpy.maximum"):
        # limits that the slider has anyway
        want = {"builtins.min": (2,), "numpy.minimum": (2,),
                "builtins.max": (0,), "numpy.maximum": (0,),
                "numpy.clip": (0, 2)}[n.op]
        lim = [place(B, s, x, pos) for x in n.args[:3]]
        rest = [x for x, v in zip(n.args, lim) if v not in want]
        if len(rest) == 1 and sorted(v for v in lim if v in want) == list(
                want):
            return leaves(B, s, rest[0], pos)
    if n.op == "phi":
        d = at(B, s, n.args[0], pos)
        if d is not None:
            return leaves(B, s, n.args[1 if d else 2], pos)
        return leaves(B, s, n.args[1], pos) + leaves(B, s, n.args[2], pos)
    if n.op == "unop" and n.args[0].op == "phi":
        return [N("unop", (x,), n.meta)
                for x in leaves(B, s, n.args[0], pos)]
    if n.op == "binop" and any(x.op == "unop" and x.args[0].op == "phi"
                               for x in n.args):
        i = 0 if n.args[0].op == "unop" else 1
        return [y for x in leaves(B, s, n.args[i], pos)
                for y in leaves(B, s, N("binop", tuple(
                    x if j == i else n.args[j] for j in (0, 1)), n.meta),
                    pos)]
    if n.op == "binop" and any(x.op == "phi" for x in n.args):
        i = 0 if n.args[0].op == "phi" else 1
        return [y for x in leaves(B, s, n.args[i], pos)
                for y in leaves(B, s, N("binop", tuple(
                    x if j == i else n.args[j] for j in (0, 1)), n.meta),
                    pos)]
    return [n]


def at(B, s, c, pos):
    if c.op == "not":
        d = at(B, s, c.args[0], pos)
        return None if d is None else not d
    if c.op == "phi":
        d = at(B, s, c.args[0], pos)
        r = [at(B, s, x, pos) for x in c.args[1:]]
        return r[0] if d or r[0] == r[1] else r[1] if d is False else None
    if c.op == "const":
        return bool(cval(c))
    if c.op == "truth" and c.args[0].k in (B.skip.k, B.step.k):
        return True
    if c.op != "cmp" or c.meta not in ("<", "<=", ">", ">=", "==", "!="):
        return None
    v = [place(B, s, x, pos) for x in c.args]
    if None in v:
        return None
    a, b = v
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b,
            "==": a == b, "!=": a != b}[c.meta]


def place(B, s, n, pos):
    if n.op == "attr" and n.args[0].k == s[0].k:
        return {"value": pos, "min": 0, "max": 2}.get(n.meta)
    if is_const(n, 0):
        return 0
    if last(B, s, n, "")[0] is True:
        return 2
    return None


def amount(B, val, n):
    """(direction, "skip" or "step") of the change, or None: n - val as a
    polynomial in skip and step."""
    p = poly(B, val, n)
    if p is None:
        return None
    if p.pop(("value",), 0) != 1:
        return None
    p = {m: c for m, c in p.items() if c}
    if not p:
        return 0, "no"
    if len(p) == 1:
        (m, c), = p.items()
        if abs(c) == 1 and m:
            return c, " * ".join(m)
        if m == ():
            return (1 if c > 0 else -1), str(abs(c))
        return (1 if c > 0 else -1), " * ".join((f"{abs(c):g}",) + m)
    return 1, " + ".join(f"{c:g} " + " ".join(m) for m, c in sorted(
        p.items()))


def poly(B, val, n):
    """{sorted factors: coefficient}, or None."""
    if n.op == "const" and isinstance(cval(n), (int, float)):
        return {(): cval(n)}
    for k, nm in ((val.k, "value"), (B.step.k, "step"), (B.skip.k, "skip")):
        if n.k == k:
            return {(nm,): 1}
    if n.op == "builtins.int":
        return poly(B, val, n.args[0])
    if n.op == "unop" and n.meta in "+-":
        p = poly(B, val, n.args[0])
        return p if n.meta == "+" or p is None else {
            m: -c for m, c in p.items()}
    if n.op == "binop" and n.meta in ("+", "-", "*"):
        p, q = (poly(B, val, x) for x in n.args)
        if p is None or q is None:
            return None
        r = {}
        if n.meta == "*":
            for a, c in p.items():
                for b, d in q.items():
                    m = tuple(sorted(a + b))
                    r[m] = r.get(m, 0) + c * d
            return r
        s = 1 if n.meta == "+" else -1
        for m in {*p, *q}:
            r[m] = p.get(m, 0) + s * q.get(m, 0)
        return r
    return None


def passed(C, B, f):
    """The function calls publish with the index it is given."""
    from ..interp import Dead
    I, what = B.I, "calls publish"
    got = []

    def publish(I, a, k):
        got.append((dict(zip(("self", "idx"), a), **k), I.st.pc))
        return NONE
    i = sym("idx", nonnull=True, kind="int")
    st, I.st = I.st, I.st.copy()
    I.method_hooks["publish"] = publish
    n = len(I.st.pc)
    try:
        I.call(f, [], {"idx": i})
    except Dead:
        return False, what, "every path raises"
    finally:
        I.st = st
        del I.method_hooks["publish"]
    if len(got) != 1:
        return (None if got else False), what, f"{len(got)} calls"
    d, pc = got[0]
    x = d.get("idx", NONE)
    if d["self"].k != B.pub.k:
        return None, what, show(d["self"])[:80]
    ok = M_.same(x, i)
    if ok is None and C.differs(x, i):
        ok = False
    if ok:
        ok = C.always(pc[n:])
    return ok, what, "with idx " + show(x)[:80]


def links(C, B, s, p):
    I = B.I

    def end(n):
        x = I.static_items(n) if n.op in ("tuple", "list") else None
        return (x[0].k, cval(x[1])) if x and len(x) == 2 and \
            x[1].op == "const" else None
    ok = None
    for a, loc in B.links:
        C.loc = loc
        ends = [end(x) for x in a]
        ok = set(ends) == {(s[0].k, "value"), (p[0].k, "value")} \
            if None not in ends else None
    C.ob(ok if B.links else False, "slider follows the play button",
         f"{len(B.links)} links")
    C.ob(len(B.outs) == 1 if B.outs else None, "one output", len(B.outs))
    for a, k, loc in B.outs:
        C.loc = loc
        d = dict(zip(("f", "controls"), a), **k)
        f = d.get("f", NONE)
        m = f.op in ("method", "attr", "bound") and f.args[0].k == B.pub.k
        if f.op == "func":
            C.ob(*passed(C, B, f))
        else:
            C.ob(f.meta == "publish" if m else None, "calls publish",
                 show(f))
        c = d.get("controls", NONE)
        if c.op != "dict":
            C.ob(None, "control of idx", show(c)[:80])
            continue
        c = {cval(x): y for x, y in c.args}
        C.ob(set(c) == {"idx"} and c["idx"].k == s[0].k, "slider controls "
             "idx", ", ".join(map(str, c)))
