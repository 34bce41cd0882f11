"""Labelled arrays: variables, dimensions, coordinates and attributes of a
value built with xarray, read off the value-flow graph."""
import ast

from ..ir import N, const, cval, is_none

PEEL = {"m:copy", "copy.copy", "copy.deepcopy", "builtins.dict", "m:compute",
        "m:load"}


class Unknown(Exception):
    pass


class Table:
    """A dict: known entries on top of an optional unknown base."""

    def __init__(self, base=None, d=None, soft=()):
        self.base, self.d, self.soft = base, dict(d or {}), list(soft)

    def put(self, k, v):
        return Table(self.base, {**self.d, k: v}, self.soft)

    def drop(self, k):
        return Table(self.base, {**self.d, k: None}, self.soft)

    def get(self, k):
        """Node, or ("base", node, key), or None."""
        if k in self.d:
            return self.d[k]
        return ("base", self.base, k) if self.base is not None else None


class Var:
    def __init__(self, dims, data, attrs, coords=None, name=None):
        self.dims, self.data, self.attrs = dims, data, attrs
        self.coords, self.name = coords, name


class Set:
    def __init__(self, vars_, coords, attrs):
        self.vars, self.coords, self.attrs = vars_, coords, attrs


def key_of(n):
    return cval(n) if n.op == "const" else ("computed", n.k)


def labels(n):
    """Names in a list/tuple/string of constants, else None."""
    if n.op in ("list", "tuple") and all(a.op == "const" for a in n.args):
        return tuple(cval(a) for a in n.args)
    if n.op == "const" and isinstance(cval(n), str):
        return (cval(n),)
    if n.op in ("numpy.array", "numpy.asarray", "builtins.list",
                "builtins.tuple"):
        return labels(n.args[0])
    return None


class Fork(Exception):
    pass


def worlds(I, hyp, fn, limit=64):
    """Yield (decided conditions, fn(reader)) for every way the conditions
    left open by `hyp(cond) -> bool | None` can turn out."""
    todo, n = [{}], 0
    while todo:
        d = todo.pop()
        n += 1
        if n > limit:
            raise Unknown("too many cases")

        def choose(c, d=d):
            v = hyp(c)
            if v is None:
                v = d.get(c.k)
            if v is None:
                raise Fork(c)
            return v
        try:
            r = fn(Reader(I, choose))
        except Fork as e:
            c = e.args[0]
            todo += [{**d, c.k: False}, {**d, c.k: True}]
            continue
        yield d, r


class Reader:
    def __init__(self, I, choose=None):
        """choose(cond node) -> bool | None resolves joins."""
        self.I = I
        self.choose = choose or (lambda c: None)

    # -- joins
    def pick(self, n):
        while True:
            if n.op == "phi":
                d = self.truth(n.args[0])
                if d is None:
                    return n
                n = n.args[1] if d else n.args[2]
            elif n.op == "item" and n.args[0].op in (
                    "dict", "item", "tuple", "list", "phi"):
                b = self.pick(n.args[0])
                m = self.entry(b, n.args[1])
                if m is None:
                    return n
                n = m
            else:
                return n

    def entry(self, b, i):
        if b.op in ("tuple", "list") and i.op == "const":
            its = self.I.static_items(b)
            if its is not None and isinstance(cval(i), int) and \
                    -len(its) <= cval(i) < len(its):
                return its[cval(i)]
        if b.op != "dict":
            return None
        for a in b.args:
            k, v = a if isinstance(a, tuple) else a.args
            e = self.same(k, i)
            if e is None:
                return None
            if e:
                return v
        return None

    def same(self, a, b):
        """Equality of two keys."""
        if a.op == "tuple" and b.op == "tuple":
            if len(a.args) != len(b.args):
                return False
            for x, y in zip(a.args, b.args):
                e = self.same(x, y)
                if e is not True:
                    return e
            return True
        if a.op == "const" and b.op == "const":
            return cval(a) == cval(b)
        if a.op == "const" and isinstance(cval(a), tuple):
            return self.same(N("tuple", tuple(const(x) for x in cval(a))), b)
        if b.op == "const" and isinstance(cval(b), tuple):
            return self.same(a, N("tuple", tuple(const(x) for x in cval(b))))
        return self.truth(self.I.truth(self.I.compare(ast.Eq(), b, a)))

    def truth(self, c):
        if c.op == "not":
            d = self.truth(c.args[0])
            return None if d is None else not d
        if c.op == "phi":
            d = self.truth(c.args[0])
            return None if d is None else self.truth(c.args[1 if d else 2])
        if c.op == "truth" and c.args[0].op in ("not", "phi"):
            if c.args[0].op == "phi":
                d = self.truth(c.args[0].args[0])
                return None if d is None else self.truth(
                    self.I.truth(c.args[0].args[1 if d else 2]))
        d = self.I.decide(c)
        return self.choose(c) if d is None else d

    # -- dicts
    def table(self, n):
        n = self.pick(n)
        op = n.op
        if op == "dict":
            t = Table()
            for a in n.args:
                if isinstance(a, tuple):
                    k, v = a
                elif a.op == "tuple":
                    k, v = a.args
                else:
                    raise Unknown("open dict")
                t = t.put(key_of(self.pick(k)), v)
            return t
        if is_none(n):
            return Table()
        if op == "update":
            return self.table(n.args[0]).put(
                key_of(self.pick(n.args[1])), n.args[2])
        if op == "updmany" or op == "binop" and n.meta == "|":
            t = self.table(n.args[0])
            for a in n.args[1:]:
                o = self.table(a)
                if o.base is not None:
                    raise Unknown("merged with an unknown mapping")
                for k, v in o.d.items():
                    t = t.put(k, v)
            return t
        if op == "delitem":
            return self.table(n.args[0]).drop(
                key_of(self.pick(n.args[1])))
        if op in PEEL and n.args:
            return self.table(n.args[0])
        if op == "mutated" and n.meta == "setdefault" and \
                len(n.args) == 3:
            t = self.table(n.args[0])
            k = key_of(self.pick(n.args[1]))
            if k in t.d:
                return t
            return t.put(k, n.args[2] if t.base is None else
                         ("base", t.base, k))
        if op == "attr" and n.meta in ("attrs", "coords"):
            try:
                o = self.read(n.args[0])
            except Unknown:
                return Table(n)
            r = getattr(o, n.meta)
            return r if r is not None else Table()
        if op in ("loop", "mu", "dictcomp"):
            # entries rewritten in a loop
            try:
                t = self.table(n.args[0 if op == "mu" else 1])
            except (Unknown, IndexError):
                t = Table(n)
            return Table(t.base if t.base is not None else n, t.d,
                         t.soft + [n])
        if op in ("sym", "in", "item", "attr"):
            return Table(n)
        raise Unknown(f"mapping {op}")

    # -- arrays and datasets
    def read(self, n):
        n = self.pick(n)
        op = n.op
        if op == "xarray.Dataset":
            t = self.table(n.args[0])
            co = self.table(n.args[1]) if len(n.args) > 1 else Table()
            at = self.table(n.args[2]) if len(n.args) > 2 else Table()
            return Set({k: self.var(v) for k, v in t.d.items()}, co, at)
        if op == "xarray.DataArray":
            a = list(n.args) + [const(None)] * 5
            dims = None if is_none(a[2]) else a[2]
            return Var(dims, a[0], self.table(a[4]), self.table(a[1]), a[3])
        if op == "update":
            s = self.read(n.args[0])
            k = key_of(self.pick(n.args[1]))
            if not isinstance(s, Set):
                raise Unknown("item of an array replaced")
            v = self.var(n.args[2])
            co = s.coords
            if k in co.d and k not in s.vars:
                return Set(s.vars, co.put(k, n.args[2]), s.attrs)
            return Set({**s.vars, k: v}, co, s.attrs)
        if op == "updmany":
            s = self.read(n.args[0])
            if isinstance(s, Set):
                vs = dict(s.vars)
                for a in n.args[1:]:
                    for k, v in self.table(a).d.items():
                        vs[k] = self.var(v)
                return Set(vs, s.coords, s.attrs)
            raise Unknown("update")
        if op == "item":
            s = self.read(n.args[0])
            k = key_of(self.pick(n.args[1]))
            if isinstance(s, Set) and k in s.vars:
                v = s.vars[k]
                return Var(v.dims, v.data, v.attrs, s.coords, const(k))
            raise Unknown("item")
        if op == "attr":
            s = self.read(n.args[0])
            if isinstance(s, Set) and n.meta in s.vars:
                v = s.vars[n.meta]
                return Var(v.dims, v.data, v.attrs, s.coords, const(n.meta))
            raise Unknown(f"attribute {n.meta}")
        if op == "setattr":
            s = self.read(n.args[0])
            if n.meta == "attrs":
                t = self.table(n.args[1])
                if isinstance(s, Set):
                    return Set(s.vars, s.coords, t)
                return Var(s.dims, s.data, t, s.coords, s.name)
            if isinstance(s, Set) and n.meta in s.vars:
                return Set({**s.vars, n.meta: self.var(n.args[1])}, s.coords,
                           s.attrs)
            if isinstance(s, Var) and n.meta == "name":
                return Var(s.dims, s.data, s.attrs, s.coords, n.args[1])
            if isinstance(s, Var) and n.meta in ("data", "values"):
                return Var(s.dims, n.args[1], s.attrs, s.coords, s.name)
            raise Unknown(f"attribute {n.meta} set")
        if op in ("m:copy", "copy.copy", "copy.deepcopy", "m:compute"):
            return self.read(n.args[0])
        if op == "tuple" and 2 <= len(n.args) <= 3:
            return self.var(n)
        raise Unknown(op)

    def var(self, n):
        n = self.pick(n)
        if n.op == "tuple" and 2 <= len(n.args) <= 3:
            return Var(n.args[0], n.args[1], self.table(n.args[2])
                       if len(n.args) > 2 else Table())
        try:
            v = self.read(n)
        except Unknown:
            return Var(None, n, Table())
        if isinstance(v, Var):
            return v
        raise Unknown("variable")
