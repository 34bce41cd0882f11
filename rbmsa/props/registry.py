"""Scenarios of the frame registry and the frame tree."""
from .. import lib
from ..ctx import (FALSE, NONE, TRUE, Dead, N, const, is_none, show, sym)
from ..interp import Budget

NAME = sym("name", kind="str", nonnull=True)
SET = ("item assignment", ".__setitem__", ".setdefault", "operator.setitem")
DEL = ("del item", ".pop", ".__delitem__", "operator.delitem")


class Scene:
    """One abstract run of a registry operation under assumed facts."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.I = I = ctx.interp()
        I.keep_states = True
        self.reg = ctx.registry(I)
        I.effects, I.raises = [], []
        self.result = None
        self.frames = []

    def fact(self, cond, pol):
        self.I._fact(cond, pol)

    def has(self, key, pol):
        self.fact(N("in_", (self.reg, key) if False else (key, self.reg)),
                  pol)
        # a present name maps to a frame
        if pol:
            it = self.I.getitem(self.reg, key)
            self.fact(self.I.isnone(it), False)
            self.fact(self.I.truth(it), True)

    def same(self, key, frame, pol):
        it = self.I.getitem(self.reg, key)
        for a, b in ((it, frame), (frame, it)):
            self.fact(N("cmp", (a, b), "is"), pol)
            self.fact(N("cmp", (a, b), "=="), pol)

    def call(self, f, args=(), kw=None):
        self.I.effects, self.I.raises = [], []
        try:
            self.result = self.I.call(f, list(args), dict(kw or {}))
            self.completes = True
        except Dead:
            self.completes = False
        self.ctx.rep.seen(self.I)
        return self

    # -- what happened
    def is_reg(self, n):
        return n is not None and (n.uid == self.reg.uid or any(
            r.kind == "global" and r.node.k == self.reg.k and
            n.op not in ("item", "attr")
            for r in lib.roots(n)))

    def excluded(self, e, st):
        """The effect's path condition contradicts the state."""
        saved = self.I.st
        self.I.st = st
        try:
            return any(self.I.decide(c) is (not p) for c, p in e.pc)
        finally:
            self.I.st = saved

    def regops(self, upto=None, pc=None, st=None):
        """[(kind, key, value, effect)] on the registry."""
        out = []
        for e in self.I.effects[:upto]:
            if e.kind != "mutate" or not self.is_reg(e.node):
                if not (e.kind == "global_write" and e.node is not None and
                        e.node.uid == self.reg.uid):
                    continue
            if pc is not None and not compatible(e.pc, pc):
                continue
            if st is not None and self.excluded(e, st):
                continue
            if e.kind == "global_write":
                out.append(("rebind", None, None, e))
            elif e.how in SET and len(e.args) >= 2:
                out.append(("set", e.args[0], e.args[1], e))
            elif e.how in DEL and e.args and e.args[0].op == "elem" and \
                    any(r.kind == "global" and r.node.k == self.reg.k
                        for r in lib.roots(e.args[0])):
                out.append(("clear", None, None, e))    # every name in turn
            elif e.how in DEL:
                out.append(("del", e.args[0] if e.args else None, None, e))
            elif e.how == ".update" and e.args and e.args[0].op == "dict" \
                    and len(e.args[0].args) == 1:
                k, v = e.args[0].args[0]
                out.append(("set", k, v, e))
            elif e.how == ".clear":
                out.append(("clear", None, None, e))
            else:
                out.append(("other", None, None, e))
        return out

    def treeops(self, upto=None, pc=None):
        """Assignments to parent/children of frames."""
        out = []
        for e in self.I.effects[:upto]:
            if e.kind == "setattr" and e.how in ("parent", "children") and (
                    pc is None or compatible(e.pc, pc)):
                out.append(e)
        return out

    def real_raises(self):
        return [e for e in self.I.raises]


def compatible(a, b):
    """No condition with opposite outcomes."""
    d = {c.k: p for c, p in a}
    return all(d.get(c.k, p) == p for c, p in b)


def same_node(a, b):
    return a is not None and b is not None and (
        a.k == b.k or (a.op == "inst" and a.uid == b.uid))


def new_frames(s):
    return [e.node for e in s.I.effects
            if e.kind == "new" and e.node.meta[0].name == s.ctx.C.name]


def parent_at(s, frame, state=None):
    I = s.I
    saved = I.st
    try:
        if state is not None:
            I.st = state
        return I.cur(I.getattr(I.cur(frame), "parent"))
    finally:
        I.st = saved


def exc_path(e):
    """The raise is reached through an exception of a library call."""
    return any(c.op == "exc" for c, p in e.pc if p)
