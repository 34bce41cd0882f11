"""Intermediate representation: nodes of the interprocedural value-flow graph.

A node ``N`` is one abstract value.  ``op`` is the operation that produced it,
``args`` its operand nodes and ``meta`` further static data.  ``k`` is the
value number (two nodes with the same ``k`` are structurally the same value);
``uid`` is the identity of the run-time object, which survives in-place
updates and is shared by aliases.
"""
import itertools

_uids = itertools.count(1)
_intern = {}


def _mk(key):
    k = _intern.get(key)
    if k is None:
        k = len(_intern) + 1
        _intern[key] = k
    return k


class N:
    __slots__ = ("op", "args", "meta", "uid", "k", "loc")

    def __init__(self, op, args=(), meta=None, uid=None, loc=None):
        self.op = op
        self.args = tuple(args)
        self.meta = meta
        self.uid = next(_uids) if uid is None else uid
        self.loc = loc
        if op in ("inst",):
            self.k = _mk(("inst", self.uid))
        elif op in ("list", "dict", "set", "tuple", "seg"):
            self.k = _mk((op, tuple(_keyof(a) for a in self.args),
                          _metakey(meta)))
        else:
            self.k = _mk((op, tuple(_keyof(a) for a in self.args),
                          _metakey(meta)))

    def __repr__(self):
        return show(self)


def _keyof(a):
    if isinstance(a, N):
        return a.k
    if isinstance(a, tuple):
        return tuple(_keyof(x) for x in a)
    return a


def _metakey(m):
    if m is None:
        return None
    if isinstance(m, N):
        return m.k
    if isinstance(m, (tuple, list)):
        return tuple(_metakey(x) for x in m)
    if isinstance(m, dict):
        return tuple(sorted((str(a), _metakey(b)) for a, b in m.items()))
    if isinstance(m, (str, int, float, bool, bytes, complex)):
        return (type(m).__name__, m)
    return id(m)


def const(v, loc=None):
    return N("const", (), ("c", type(v).__name__, v)
             if not isinstance(v, (list, dict, set)) else ("c", "obj", repr(v)),
             loc=loc)


def is_const(n, *vals):
    if n.op != "const":
        return False
    if not vals:
        return True
    v = n.meta[2]
    return any(v is x or (type(v) is type(x) and v == x) or
               (isinstance(v, (int, float)) and isinstance(x, (int, float))
                and not isinstance(v, bool) and not isinstance(x, bool)
                and v == x) for x in vals)


def cval(n):
    assert n.op == "const"
    return n.meta[2]


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_none(n):
    return n.op == "const" and n.meta[2] is None


def show(n, depth=6):
    if not isinstance(n, N):
        return repr(n)
    if n.op == "const":
        return repr(n.meta[2])
    if n.op == "in":
        return f"${n.meta[0]}"
    if n.op in ("extern",):
        return n.meta
    if n.op == "func":
        return f"<fn {n.meta[0].qualname}>"
    if n.op == "inst":
        return f"<inst {n.meta[0].name}#{n.uid}>"
    if n.op == "class":
        return f"<class {n.meta.name}>"
    if depth <= 0:
        return "…"
    a = ", ".join(show(x, depth - 1) if isinstance(x, N)
                  else "(" + ",".join(show(y, depth - 1) for y in x) + ")"
                  if isinstance(x, tuple) else repr(x) for x in n.args)
    if n.op == "phi":
        c, x, y = n.args
        return (f"φ[{show(c, depth-1)} ? {show(x, depth-1)} : "
                f"{show(y, depth-1)}]")
    if n.op == "attr":
        return f"{show(n.args[0], depth-1)}.{n.meta}"
    if n.op == "item":
        return f"{show(n.args[0], depth-1)}[{show(n.args[1], depth-1)}]"
    m = ""
    if n.meta is not None:
        m = "{" + (n.meta if isinstance(n.meta, str) else repr(n.meta)[:60]) + "}"
    return f"{n.op}{m}({a})"


def walk(n, seen=None):
    """All nodes reachable from n (each value number once)."""
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if x.k in seen:
            continue
        seen.add(x.k)
        yield x
        for a in x.args:
            if isinstance(a, N):
                st.append(a)
            elif isinstance(a, tuple):
                st.extend(y for y in a if isinstance(y, N))
