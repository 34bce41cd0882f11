"""Comparing what two calls do: terms up to the identity of what each of them
creates."""
from .ir import N

_intern = {}
IDENT = {"mu", "loop", "last", "inst", "new", "museg", "mapseg", "condseg",
         "star", "seg", "elem", "map", "quant", "broke"}


class Canon:
    """Numbers of terms; equal terms of two calls get the same number when
    each call has a Canon of its own and is walked in the same order."""

    def __init__(self):
        self.memo, self.ids = {}, {}

    def ident(self, x):
        return self.ids.setdefault(x, len(self.ids))

    def meta(self, m, op):
        if isinstance(m, N):
            return ("n", self(m))
        if isinstance(m, (tuple, list)):
            return tuple(self.meta(x, op) for x in m)
        if isinstance(m, dict):
            return ("d", tuple((str(a), self.meta(b, op))
                               for a, b in sorted(m.items(), key=str)))
        if isinstance(m, bool) or m is None or isinstance(
                m, (str, float, bytes, complex)):
            return (type(m).__name__, m)
        if isinstance(m, int):
            return ("id", self.ident(m)) if op in IDENT else ("int", m)
        q = getattr(m, "qual", None) or getattr(m, "name", None)
        if isinstance(q, str):
            return ("q", q, getattr(getattr(m, "node", None), "lineno", 0))
        return ("o", type(m).__name__)

    def __call__(self, root):
        """Number of a term (without recursion)."""
        st = [root]
        while st:
            n = st[-1]
            kid = (n.k, n.uid) if n.op == "inst" else n.k
            if kid in self.memo:
                st.pop()
                continue
            todo = []
            for a in n.args:
                for x in (a if isinstance(a, tuple) else (a,)):
                    if isinstance(x, N) and self.at(x) is None:
                        todo.append(x)
            if todo:
                st.extend(reversed(todo))
                continue
            args = tuple(
                tuple(self.at(x) if isinstance(x, N) else str(x) for x in a)
                if isinstance(a, tuple) else
                self.at(a) if isinstance(a, N) else ("v", str(a))
                for a in n.args)
            if n.op == "inst":
                args += (("id", self.ident(n.uid)),)
            m = self.meta(n.meta, n.op)
            self.memo[kid] = _intern.setdefault((n.op, args, m),
                                                len(_intern) + 1)
            st.pop()
        return self.at(root)

    def at(self, n):
        return self.memo.get((n.k, n.uid) if n.op == "inst" else n.k)


def outcome(I, r, calls=True):
    """What a call returns, does and raises, as a comparable term."""
    c = Canon()

    def key(x):
        return c(x) if isinstance(x, N) else str(x)
    return (key(r) if r is not None else None,
            tuple((e.kind, key(e.node), str(e.how),
                   tuple(map(key, e.args or ()))) for e in I.effects),
            tuple((op, key(n)) for op, n, *_ in I.calls) if calls else (),
            tuple((e.how, tuple((key(q), pol) for q, pol in e.pc))
                  for e in I.raises))
