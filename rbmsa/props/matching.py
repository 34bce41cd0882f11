"""Scenarios of time matching: a small tree of static, continuous and
discrete frames, and arrays with or without stamps."""
import itertools
import operator

from ..ctx import EXACT, FALSE, NONE, TRUE, Dead, N, const, cval, sym, walk
from ..dom.timeline import PEEL, SWAP, Resampling, Times, describe

OPS = {"<": operator.lt, "<=": operator.le, ">": operator.gt,
       ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


class World:
    """parents: {name: parent name | None}; kinds: {name: s|c|d}; facts:
    conditions assumed to hold or not to hold."""

    def __init__(self, ctx, parents, kinds, facts=()):
        self.ctx = ctx
        self.I = I = ctx.rot_interp()
        self.facts = tuple(facts)
        for c, pol in self.facts:
            I._fact(c, pol)
        self.parents = parents
        self.kinds = kinds
        self.f = {}
        self.names, self.data = {}, {}
        for nm in parents:
            f = self.f[nm] = ctx.frame(nm)
            k = kinds.get(nm, "s")
            ts = I.getattr(f, "timestamps")
            I._fact(I.isnone(ts), k == "s")
            I._fact(I.truth(I.getattr(f, "discrete")), k == "d")
            par = I.getattr(f, "parent")
            I._fact(I.isnone(par), parents[nm] is None)
            if k != "s":
                self.names[ts.k] = nm
            for a in ("translation", "rotation"):
                self.data[I.getattr(f, a).k] = (nm, a)
        self.by_key = {f.k: nm for nm, f in self.f.items()}
        I.method_hooks["walk"] = self.walk

    def chain(self, nm):
        out = []
        while nm is not None:
            out.append(nm)
            nm = self.parents[nm]
        return out

    def path(self, a, b):
        ca, cb = self.chain(a), self.chain(b)
        com = next(x for x in ca if x in cb)
        return ca[:ca.index(com)], com, list(reversed(cb[:cb.index(com)]))

    def walk(self, I, a, k):
        src, dst = a[1], a[2]
        s, d = self.by_key.get(src.k), self.by_key.get(dst.k)
        if s is None or d is None:
            return NotImplemented
        up, com, dn = self.path(s, d)
        return N("tuple", (N("tuple", tuple(self.f[x] for x in up)),
                           self.f[com],
                           N("tuple", tuple(self.f[x] for x in dn))))

    def array(self, name="arr", stamps=True):
        a = sym(name, kind="ndarray", nonnull=True)
        self.data[a.k] = (name, "data")
        self.kinds = dict(self.kinds, **{name: "c" if stamps else "s"})
        if not stamps:
            return a, NONE
        t = sym(name + "_t", kind="ndarray", nonnull=True)
        self.names[t.k] = name
        return a, t

    def times(self):
        return Times(self.names, self.I)

    def call(self, f, args=(), kw=None):
        try:
            r = self.I.call(f, list(args), dict(kw or {}))
        except Dead:
            r = None
        self.ctx.rep.seen(self.I)
        if self.ctx.rep.prop in EXACT:
            self.ctx.kept(self.I, r)
        return r

    def method(self, nm, meth, args=(), kw=None):
        return self.call(self.I.getattr(self.f[nm], meth), args, kw)

    def expected(self, frames, arrays=(), arrays_first=True):
        """Specified time line: frames in path order, arrays with stamps."""
        cont = [x for x in frames if self.kinds[x] == "c"]
        disc = [x for x in frames if self.kinds[x] == "d"]
        arrs = [x for x in arrays if self.kinds[x] == "c"]
        el = arrs + cont if arrays_first else cont + arrs
        if el:
            b = frozenset(x for y in el if y != el[0] for x in (
                (">=", ("first", y)), ("<=", ("last", y))))
            return ("R", el[0], b) if b else ("T", el[0])
        if disc:
            return ("U", frozenset(disc)) 
        return ("none",)


# ------------------------------------------------------------- case splits
def open_conditions(*vals):
    """Atomic conditions that select between values, in a stable order."""
    out, seen, st = {}, set(), [v for v in vals if isinstance(v, N)]

    def atoms(c):
        if c.op == "not":
            atoms(c.args[0])
        elif c.op == "truth" and c.args[0].op in ("phi", "not", "cmp"):
            atoms(c.args[0])
        elif c.op == "phi":
            for a in c.args:
                atoms(a)
        elif c.op != "const" and not looped(c):
            out.setdefault(c.k, c)
    while st:
        n = st.pop()
        if n.k in seen:
            continue
        seen.add(n.k)
        if n.op in ("phi", "condseg"):
            atoms(n.args[0])
        for a in n.args:
            if isinstance(a, N):
                st.append(a)
            elif isinstance(a, tuple):
                st += [x for x in a if isinstance(x, N)]
    return sorted(out.values(), key=lambda c: any(
        x.op in ("condseg", "phi") for x in walk(c)))


def looped(c):
    """Does the condition depend on the element of a loop?"""
    return any(n.op in ("elem", "mu") for n in walk(c))


def explore(make, judge, limit=24, depth=4):
    """Judgements of every case.  make(facts) -> anything with .values,
    judge(that, facts) -> verdict (None: not decided).  An undecided case is
    split by the first condition that is still open."""
    todo, out = [()], []
    while todo and len(out) < limit:
        facts = todo.pop()
        x = make(facts)
        v = judge(x, facts)
        if v is None or v[0] is None:
            have = {c.k for c, _ in facts}
            new = [c for c in open_conditions(*x.values) if c.k not in have]
            if new and len(facts) < depth:
                todo += [facts + ((new[0], False),),
                         facts + ((new[0], True),)]
                continue
        out.append(v)
    return out


class Orders:
    """Judges time lines under every order of the end points of the
    elements."""

    def __init__(self, T, facts, data=()):
        self.T = T
        self.facts = facts
        self.data = set(data)

    def hard(self, c, pol):
        """Nothing about the stamps or the data follows from c."""
        d = set(self.T.names) | self.data
        return all(n.k not in d for n in walk(c))

    def verdict(self, got, want):
        """True, False or None."""
        if not self.facts or got == want:
            return got == want
        els = set()
        for v in (got, want):
            self.elements(v, els)
        for c, _ in self.facts:
            for n in walk(c):
                if n.k in self.T.names:
                    els.add(self.T.names[n.k])
        els = sorted(els)
        if len(els) > 3:
            return None
        ranks = range(2 * len(els))
        pairs = [(a, b) for a in ranks for b in ranks if a <= b]
        some, doubt = False, False
        for ch in itertools.product(pairs, repeat=len(els)):
            m = dict(zip(els, ch))
            st = True
            for c, pol in self.facts:
                t = self.truth(c, m)
                if t is None:
                    if not self.hard(c, pol):
                        st = None
                elif t != pol:
                    st = False
                    break
            if st is False:
                continue
            some = True
            a, b = self.interval(got, m), self.interval(want, m)
            if a is None or b is None:
                return None
            if a != b:
                if st:
                    return False
                doubt = True
        return None if doubt else True

    def elements(self, v, out):
        if isinstance(v, str):
            return
        if v[0] in ("T", "R", "first", "last") and isinstance(v[1], str):
            out.add(v[1])
        for x in v[1:]:
            if isinstance(x, tuple):
                self.elements(x, out)
            elif isinstance(x, frozenset):
                for y in x:
                    if isinstance(y, str):
                        out.add(y)
                    else:
                        self.elements(y if isinstance(y[0], str) and y[
                            0] not in SWAP else y[1], out)

    def scalar(self, v, m):
        if v[0] == "inf":
            return v[1] * 1e9
        if v[0] in ("first", "last") and isinstance(v[1], str):
            return m[v[1]][v[0] == "last"]
        if v[0] in ("max", "min"):
            xs = [self.scalar(x, m) for x in v[1]]
            return None if None in xs else (max if v[0] == "max" else min)(xs)
        return None

    def interval(self, v, m):
        if v[0] == "T":
            return (v[1], m[v[1]][0], False, m[v[1]][1], False)
        if v[0] != "R":
            return v
        lo, lo_open, hi, hi_open = m[v[1]][0], False, m[v[1]][1], False
        for op, s in v[2]:
            if op not in SWAP:
                return None
            x = self.scalar(s, m)
            if x is None:
                return None
            if op[0] == ">":
                if (x, op == ">") > (lo, lo_open):
                    lo, lo_open = x, op == ">"
            elif (-x, op == "<") > (-hi, hi_open):
                hi, hi_open = x, op == "<"
        if lo > hi or lo == hi and (lo_open or hi_open):
            return "empty"
        return (v[1], lo, lo_open, hi, hi_open)

    def truth(self, c, m):
        if c.op == "not":
            t = self.truth(c.args[0], m)
            return None if t is None else not t
        if c.op == "truth":
            return self.truth(c.args[0], m)
        if c.op == "const":
            return bool(cval(c))
        if c.op == "phi":
            g, a, b = (self.truth(x, m) for x in c.args)
            return b if g is False else a if g is True else \
                a if a == b else None
        if c.op != "cmp" or c.meta not in OPS:
            return None
        a, b = (self.number(x, m) for x in c.args)
        if a is None or b is None:
            return None
        (a0, a1), (b0, b1) = a, b
        rs = {OPS[c.meta](x, y) for x in (a0, a1) for y in (b0, b1)}
        if c.meta in ("==", "!=") and len(rs) == 1 and (a0, b0) != (a1, b1) \
                and a0 <= b1 and b0 <= a1:
            return None
        return rs.pop() if len(rs) == 1 else None

    def number(self, n, m):
        """(least, greatest) value."""
        if n.op == "const" and isinstance(cval(n), (int, float)):
            return (cval(n),) * 2
        if n.op == "builtins.len" or n.op == "attr" and n.meta == "size":
            v = self.T.try_ev(n.args[0])
            if v is not None and v[0] == "T":
                a, b = m[v[1]]
                return (1, 1) if a == b else (2, 1e9)
            return None
        v = self.T.try_ev(n)
        x = None if v is None else self.scalar(v, m)
        return None if x is None else (x, x)


def peel(n):
    while n.op in PEEL and n.args:
        n = n.args[0]
    return n


def same_line(T, a, b):
    """True/False/None: the two stamp arrays are the same time line."""
    if peel(a).k == peel(b).k:
        return True
    x, y = T.canon(T.try_ev(a)), T.canon(T.try_ev(b))
    if x is not None and y is not None:
        return x == y
    return None


__all__ = ["World", "explore", "Orders", "Resampling", "Times", "describe", "same_line", "peel"]
