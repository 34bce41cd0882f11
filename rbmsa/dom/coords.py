"""Coordinates of a labelled array, decided on one array that has a
coordinate of every kind.

The dimensions and the names, dimensions and types of the coordinates are
concrete; what the coordinates hold stays symbolic.  Conditions and key sets
built from them are evaluated, anything else is `Unknown`.
"""
from ..ir import N, cval
from .labelled import Unknown

KINDS = {"number": "iufcm", "floating": "f", "inexact": "fc", "integer": "ium",
         "signedinteger": "im", "unsignedinteger": "u",
         "complexfloating": "c", "bool_": "b", "datetime64": "M",
         "timedelta64": "m", "str_": "U", "object_": "O", "character": "US",
         "flexible": "USV", "float64": "f", "int64": "i"}


class Coord:
    def __init__(self, name, dims, kind="f"):
        self.name, self.dims, self.kind = name, tuple(dims), kind


class DType:
    def __init__(self, kind):
        self.kind = kind


class Ext:
    def __init__(self, name):
        self.name = name


class Model:
    def __init__(self, da, dims, coords):
        self.da, self.dims = da, tuple(dims)
        self.coords = {c.name: c for c in coords}
        self.env = {}

    # a collection of coordinates while a loop works on it
    def ev(self, n):
        if n.k in self.env:
            return self.env[n.k]
        f = getattr(self, "o_" + n.op.replace(".", "_").replace(":", "_"),
                    None)
        if f is None:
            if n.op == "extern":
                return Ext(n.meta)
            raise Unknown(n.op)
        return f(n)

    def o_const(self, n):
        return cval(n)

    def o_in(self, n):
        if n.k == self.da.k:
            return self
        raise Unknown("parameter")

    def o_attr(self, n):
        v, m = self.ev(n.args[0]), n.meta
        if v is self:
            if m == "dims":
                return self.dims
            if m == "coords":
                return self.coords
            if m == "ndim":
                return len(self.dims)
        if isinstance(v, Coord):
            if m in ("dims", "name"):
                return getattr(v, m)
            if m == "sizes":
                return dict.fromkeys(v.dims)
            if m == "ndim":
                return len(v.dims)
            if m == "dtype":
                return DType(v.kind)
            if m == "coords" and len(v.dims) < 2:
                return {c.name: c for c in self.coords.values()
                        if set(c.dims) <= set(v.dims)}
        if isinstance(v, DType) and m == "kind":
            return v.kind
        raise Unknown(f"attribute {m}")

    def same(self, n):
        v = self.ev(n.args[0])
        return dict(v) if isinstance(v, dict) else v
    o_builtins_dict = o_m_copy = same

    def o_mu(self, n):
        return self.ev(n.args[0])

    def seq(self, n):
        v = self.ev(n.args[0]) if n.args else ()
        return tuple(v)
    o_builtins_tuple = o_builtins_list = o_m_keys = seq

    def o_builtins_set(self, n):
        return set(self.seq(n))

    def o_m_items(self, n):
        return tuple(self.ev(n.args[0]).items())

    def o_m_values(self, n):
        return tuple(self.ev(n.args[0]).values())

    def o_builtins_len(self, n):
        return len(self.ev(n.args[0]))

    def o_m_index(self, n):
        try:
            return self.ev(n.args[0]).index(self.ev(n.args[1]))
        except (AttributeError, ValueError):
            raise Unknown("index")

    def o_m_get(self, n):
        v = self.ev(n.args[0])
        if not isinstance(v, dict):
            raise Unknown("get")
        return v.get(*[self.ev(a) for a in n.args[1:]])

    def o_slice(self, n):
        return slice(*[self.ev(a) for a in n.args])

    def o_item(self, n):
        v, i = self.ev(n.args[0]), self.ev(n.args[1])
        if v is self and isinstance(i, str) and i in self.coords:
            return self.coords[i]
        if not isinstance(v, (tuple, dict, str)):
            raise Unknown("item")
        try:
            return v[i]
        except (KeyError, IndexError, TypeError):
            raise Unknown("item")

    def o_not(self, n):
        return not self.truth(n.args[0])

    def o_truth(self, n):
        return self.truth(n.args[0])

    def truth(self, n):
        v = self.ev(n)
        if isinstance(v, (Coord, DType, Ext, Model)):
            raise Unknown("truth value")
        return bool(v)

    def o_phi(self, n):
        return self.ev(n.args[1 if self.truth(n.args[0]) else 2])

    def o_in_(self, n):
        v = self.ev(n.args[1])
        if not isinstance(v, (tuple, dict, set, str)):
            raise Unknown("membership")
        return self.ev(n.args[0]) in v

    def o_cmp(self, n):
        a, b = (self.ev(x) for x in n.args)
        if any(isinstance(x, (Coord, DType, Ext)) for x in (a, b)):
            raise Unknown("comparison")
        try:
            return {"==": lambda: a == b, "!=": lambda: a != b,
                    "<": lambda: a < b, "<=": lambda: a <= b,
                    ">": lambda: a > b, ">=": lambda: a >= b}[n.meta]()
        except (KeyError, TypeError):
            raise Unknown("comparison")

    def o_is(self, n):
        a, b = (self.ev(x) for x in n.args)
        if a is None or b is None:
            return a is b
        raise Unknown("identity")

    def o_binop(self, n):
        a, b = (self.ev(x) for x in n.args)
        try:
            return {"+": lambda: a + b, "-": lambda: a - b,
                    "&": lambda: a & b, "|": lambda: a | b}[n.meta]()
        except (KeyError, TypeError):
            raise Unknown("operator")

    def o_numpy_issubdtype(self, n):
        a, b = (self.ev(x) for x in n.args[:2])
        if isinstance(a, DType) and isinstance(b, Ext):
            k = KINDS.get(b.name.rpartition(".")[2])
            if b.name == "builtins.float":
                k = "f"
            if k is not None:
                return a.kind in k
        raise Unknown("type test")

    # -- collections
    def elems(self, n):
        return list(self.ev(n))

    def each(self, n, seq):
        """One pass per element: the values of the nodes that stand for it."""
        for x in self.elems(seq):
            yield x

    def bind(self, seq, x):
        self.env[N("elem", (seq,)).k] = x

    def o_mapseg(self, n):
        raise Unknown("segment")

    def parts(self, n):
        out = []
        for a in n.args:
            if a.op == "mapseg":
                seq = a.args[0]
                old = dict(self.env)
                for x in self.elems(seq):
                    self.bind(seq, x)
                    if len(a.args) > 2 and not self.truth(a.args[2]):
                        continue
                    out.append(self.ev(a.args[1]))
                self.env = old
            elif a.op == "star":
                out.extend(self.ev(a.args[0]))
            elif a.op in ("condseg", "museg"):
                raise Unknown("segment")
            else:
                out.append(self.ev(a))
        return out

    def o_tuple(self, n):
        return tuple(self.parts(n))
    o_list = o_tuple

    def o_set(self, n):
        return set(self.parts(n))

    def o_dictcomp(self, n):
        return dict(self.parts(n))

    def o_dict(self, n):
        return {self.ev(k): self.ev(v) for k, v in n.args}
