"""C26: rosbag files are open exactly inside their context."""
from ..ctx import NONE, const, cval, is_none, show, sym
from . import rosmsg as M_

OPEN = "opened"
CLOSE = "closed"
OUT = "outside"
MOD = "ros.io"


def check(ctx, rep):
    rep.rule(OPEN, "entering the context opens the file of the object in its "
                   "mode once and returns the object")
    rep.rule(CLOSE, "leaving the context, with or without an exception, "
                    "closes the file opened on entering and lets the "
                    "exception pass")
    rep.rule(OUT, "before entering and after leaving the context every path "
                  "through the method ends in a RuntimeError")
    for cls, mode in (("RosbagReader", "r"), ("RosbagWriter", "w")):
        for again in (False, True):
            enter(ctx, rep, cls, mode, again)
        for exc in (False, True):
            leave(ctx, rep, cls, exc)
    for after in (False, True):
        for m, a in (("load_messages", ["topic"]),
                     ("get_topics_and_types", []),
                     ("load_dataset", ["topic"]), ("export", ["topic"])):
            outside(ctx, rep, m, a, after)


class Bench:
    def __init__(self, ctx, cls):
        self.ctx = ctx
        I = self.I = ctx.interp()
        self.bags, self.closed = [], []
        I.extern_hooks["rosbag.Bag"] = self.open
        I.extern_hooks["rosbag.bag.Bag"] = self.open
        I.method_hooks["close"] = self.close
        self.file = sym("file", nonnull=True, kind="str")
        self.o = I.call(ctx.at(I, MOD, cls), [self.file], {})

    def open(self, I, a, k):
        b = sym(f"bag{len(self.bags)}", nonnull=True)
        self.bags.append((b, dict(zip(("f", "mode"), a), **k), I.st.pc,
                          I.loc))
        return b

    def close(self, I, a, k):
        if a[0].op == "inst":
            return NotImplemented
        self.closed.append((a[0], I.st.pc, I.loc))
        return NONE

    def do(self, m, *a):
        return self.ctx.run(self.I, self.I.getattr(self.I.cur(self.o), m),
                            list(a), {})


def enter(ctx, rep, cls, mode, again):
    con = f"{cls}.__enter__" + (" again" if again else "")

    def go():
        B = Bench(ctx, cls)
        if again:
            B.do("__enter__")
            B.do("__exit__", NONE, NONE, NONE)
            B.bags.clear()
        r = B.do("__enter__")
        C = M_.Check(rep, OPEN, con, B.I)
        if r is None:
            C.ob(False, "returns", "every path raises")
            return
        C.ob(len(B.bags) == 1 if B.bags else False, "opens the file",
             f"{len(B.bags)} times")
        for b, k, pc, loc in B.bags:
            f = k.get("f", NONE)
            while f.op in ("pathlib.Path", "builtins.str", "os.fspath") and \
                    f.args:
                f = f.args[0]
            if f.op == "attr" and f.meta in ("name", "stem", "parent"):
                C.ob(False, "file", show(f), loc)
            else:
                C.eq(f, B.file, "file")
            m = k.get("mode", const("r"))
            C.ob(opened(m, mode), "mode", show(m), loc)
        C.ob(r.uid == B.o.uid or (False if is_none(r) or r.op == "sym"
                                  else None), "returns the object", show(r))
    ctx.guarded(OPEN, con, go)


def opened(m, mode):
    if m.op == "const":
        return cval(m) in (mode, mode + "b")
    if m.op == "phi":
        rs = [opened(x, mode) for x in m.args[1:]]
        return rs[0] if rs[0] == rs[1] else \
            False if None not in rs and elsewhere(m.args[0]) else None
    return None


def elsewhere(c):
    """A question about the file system: any answer is possible."""
    while c.op in ("not", "truth"):
        c = c.args[0]
    return c.op in ("m:exists", "m:is_file", "os.path.exists",
                    "os.path.isfile", "m:stat", "os.path.getsize")


def catches(r, exc):
    """Is the result of __exit__ true for exceptions of some type?"""
    while r.op in ("not", "truth"):
        r = r.args[0]
    if r.k in {x.k for x in exc}:
        return True
    return r.op in ("cmp", "isinst", "in_", "builtins.issubclass",
                    "builtins.isinstance") and any(
        x.k in {y.k for y in exc} for x in r.args) and any(
        x.op in ("extern", "class", "tuple") for x in r.args) or \
        r.op == "isinst" and r.args[0].k in {x.k for x in exc}


def empty(c, bag):
    """A question that an empty file answers with no."""
    while c.op == "truth":
        c = c.args[0]
    return c.op == "attr" and c.meta == "size" and c.args[0].k == bag.k or \
        c.op == "m:get_message_count" and c.args[0].k == bag.k and len(
            c.args) == 1


def leave(ctx, rep, cls, exc):
    con = f"{cls}.__exit__" + (" after an exception" if exc else "")

    def go():
        B = Bench(ctx, cls)
        B.do("__enter__")
        bag = B.bags[0][0] if B.bags else None
        a = [sym(x, nonnull=True) for x in ("type", "value", "traceback")] \
            if exc else [NONE] * 3
        B.closed.clear()
        r = B.do("__exit__", *a)
        C = M_.Check(rep, CLOSE, con, B.I)
        if bag is None:
            C.ob(None, "closes", "no file opened")
            return
        if r is None:
            C.ob(False, "returns", "every path raises")
            return
        mine = [x for x in B.closed if x[0].k == bag.k]
        C.ob(bool(mine), "closes the file", f"{len(B.closed)} calls of close")
        for b, pc, loc in mine:
            cs = [c for c, p in pc if c.op != "inloop"]
            C.ob(True if not cs else False if any(
                empty(c, bag) for c in cs) else None, "in every case",
                 "; ".join(show(c)[:60] for c in cs), loc)
        while r.op in ("builtins.bool",):
            r = r.args[0]
        ok = is_none(r) or r.op == "const" and not cval(r)
        C.ob(True if ok or not exc and r.op == "const" else
             False if r.op == "const" or exc and catches(r, a) else None,
             "the exception passes", show(r)[:80])
    ctx.guarded(CLOSE, con, go)


def outside(ctx, rep, m, a, after):
    con = f"RosbagReader.{m} " + ("after" if after else "before") + \
        " the context"

    def go():
        B = Bench(ctx, "RosbagReader")
        if after:
            B.do("__enter__")
            B.do("__exit__", NONE, NONE, NONE)
        B.I.raises = []
        n = len(B.bags)
        r = B.do(m, *[sym(x, nonnull=True, kind="str") for x in a])
        C = M_.Check(rep, OUT, con, B.I)
        C.ob(r is None, "is rejected", "returns " + show(r)[:80]
             if r is not None else "every path raises")
        hows = {str(e.how) for e in B.I.raises}
        C.ob(hows <= {"RuntimeError"} if hows else None, "with RuntimeError",
             ", ".join(sorted(hows)))
        C.ob(len(B.bags) == n, "without opening the file",
             f"{len(B.bags) - n} opened")
    ctx.guarded(OUT, con, go)
