"""Exact algebra of component expressions.

Expressions are quotients of polynomials with rational coefficients over
atoms: free variables, square roots, sines/cosines, angles and uninterpreted
functions.  Two expressions are compared by cross-multiplying and reducing
(sqrt(x)^2 = x, sin^2 = 1 - cos^2), i.e. by normal forms.
"""
import math
import random
from fractions import Fraction

EVAL = {
    "sqrt": math.sqrt, "cos": math.cos, "sin": math.sin, "abs": abs,
    "angle": lambda c, s: math.atan2(s, c),
    "fn:maximum": max, "fn:minimum": min, "fn:sign": lambda x: (x > 0) -
    (x < 0), "fn:exp": math.exp, "fn:log": math.log, "fn:floor": math.floor,
    "fn:lt": lambda x, y: float(x < y), "fn:le": lambda x, y: float(x <= y),
    "fn:eq": lambda x, y: float(x == y),
    "fn:where": lambda c, x, y: x if c else y,
    "fn:mod": lambda x, y: x % y, "fn:tan": math.tan,
}


def _rotvec(i):
    def f(w, x, y, z):
        n = math.sqrt(x * x + y * y + z * z)
        return 2 * math.atan2(n, w) * (x, y, z)[i] / n
    return f


for _i in range(3):
    EVAL[f"fn:rotvec{_i}"] = _rotvec(_i)
EVAL["fn:isnan"] = lambda x: float(int(abs(x) * 1e4) % 2)
EVAL["fn:or"] = lambda *a: max(a)
# operators along a batch axis: (prefix of) atom kinds
OPERATORS = ("fn:d:", "fn:filtfilt:", "fn:lfilter:", "fn:any:")


class Points:
    """Assignments of reals to variable names, reproducible by name."""

    def __init__(self, n):
        self.n = n

    def __iter__(self):
        for j in range(self.n):
            def env(name, j=j):
                r = random.Random(f"{j}/{name}")
                if name.startswith("len<"):
                    return r.randint(2, 50)
                if j % 3 == 2:
                    return r.choice((-2, -1, 1, 2, 3))
                return r.gauss(0, 1) * (1, 1e-3, 1, 30)[j % 4]
            yield env



class Alg:
    def __init__(self):
        self.vars = []      # (kind, payload)
        self.names = {}
        self.sq = {}        # var -> Rat it squares to
        self.vocab = None

    # --- variables
    def var(self, name):
        if name not in self.names:
            self.vars.append(("var", name))
            self.names[name] = len(self.vars) - 1
        return Rat({((self.names[name], 1),): Fraction(1)}, ONE, self)

    def num(self, c):
        c = Fraction(c).limit_denominator(10**12) if isinstance(c, float) \
            else Fraction(c)
        return Rat({(): c} if c else {}, ONE, self)

    def atom(self, kind, *args):
        """Atom kind(args), shared between equal arguments."""
        for i, (k, p) in enumerate(self.vars):
            if k == kind and len(p) == len(args) and all(
                    self.same(a, b) for a, b in zip(p, args)):
                return i
        self.vars.append((kind, args))
        return len(self.vars) - 1

    def mkvar(self, i):
        return Rat({((i, 1),): Fraction(1)}, ONE, self)

    def same(self, a, b):
        if isinstance(a, Rat) and isinstance(b, Rat):
            return self.iszero(a - b)
        return a == b

    # --- functions
    def sqrt(self, x):
        c = x.const()
        if c is not None and c >= 0:
            from math import isqrt
            n, d = c.numerator, c.denominator
            if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
                return self.num(Fraction(isqrt(n), isqrt(d)))
        # perfect squares of earlier roots and products of two earlier roots
        roots = [(i, p[0]) for i, (k, p) in enumerate(self.vars)
                 if k == "sqrt"]
        for i, a in roots:
            if self.iszero(a - x):
                return self.mkvar(i)
        for i, a in roots:
            if self.positive(a) and self.iszero(a * a - x):
                return a
            for j, b in roots:
                if self.iszero(a * b - x):
                    return self.mkvar(i) * self.mkvar(j)
                if self.positive(b) and self.iszero(a - x * b):
                    return self.mkvar(i) / self.mkvar(j)
        s = self._monosqrt(x)
        if s is not None:
            return s
        i = self.atom("sqrt", x)
        self.sq[i] = x
        return self.mkvar(i)

    def _monosqrt(self, x):
        """sqrt of c * (positive monomial)^2."""
        if len(x.n) != 1 or len(x.d) != 1:
            return None
        (m, c), = x.n.items()
        (md, cd), = x.d.items()
        q = c / cd
        r = self.sqrt(self.num(q)) if q >= 0 else None
        if r is None:
            return None
        out = r
        if r.const() is None:
            return None
        for v, e in m:
            if e % 2 or not self.posvar(v):
                return None
            out = out * Rat({((v, e // 2),): Fraction(1)}, ONE, self)
        for v, e in md:
            if e % 2 or not self.posvar(v):
                return None
            out = out / Rat({((v, e // 2),): Fraction(1)}, ONE, self)
        return out

    def posvar(self, i):
        return self.vars[i][0] in ("sqrt", "abs", "pos")

    def positive(self, x):
        """Provably non-negative (positive almost everywhere)."""
        x = self.reduce(x)

        def pp(p):
            return bool(p) and all(
                c > 0 and all(e % 2 == 0 or self.posvar(v) for v, e in m)
                for m, c in p.items())

        def pn(p):
            return bool(p) and pp({m: -c for m, c in p.items()})
        return pp(x.n) and pp(x.d) or pn(x.n) and pn(x.d)

    def cos(self, x):
        a = self._angle(x)
        if a is not None:
            c, s = a
            return c / self.sqrt(c * c + s * s)
        x, _ = self._canon_sign(x)
        return self.mkvar(self.atom("cos", x))

    def sin(self, x):
        a = self._angle(x)
        if a is not None:
            c, s = a
            return s / self.sqrt(c * c + s * s)
        x, sg = self._canon_sign(x)
        i = self.atom("sin", x)
        c = self.mkvar(self.atom("cos", x))
        self.sq[i] = self.num(1) - c * c
        return self.mkvar(i) * self.num(sg)

    def _angle(self, x):
        if len(x.n) == 1 and x.d == ONE:
            (m, c), = x.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and \
                    self.vars[m[0][0]][0] == "angle":
                return self.vars[m[0][0]][1]
        return None

    def _canon_sign(self, x):
        if x.n:
            lead = x.n[max(x.n)]
            dl = x.d[max(x.d)]
            if (lead < 0) != (dl < 0):
                return -x, -1
        return x, 1

    def angle(self, c, s):
        """atan2(s, c)."""
        v = self._known_angle(c, s)
        if v is not None:
            return v
        v = self._known_angle(c, -s)
        if v is not None:
            return -v
        self.vars.append(("angle", (c, s)))
        return self.mkvar(len(self.vars) - 1)

    def _known_angle(self, c, s):
        for i, (k, p) in enumerate(self.vars):
            if k == "angle":
                c2, s2 = p
                if self.iszero(c * s2 - c2 * s):
                    # same line: same direction iff the factor is positive
                    f = None
                    if not self.iszero(c2) and self.positive(c / c2):
                        f = True
                    elif not self.iszero(s2) and self.positive(s / s2):
                        f = True
                    if f:
                        return self.mkvar(i)
        return None

    def abs(self, x):
        if self.positive(x):
            return x
        i = self.atom("abs", x)
        self.sq[i] = x * x
        return self.mkvar(i)

    def fn(self, name, *args):
        return self.mkvar(self.atom("fn:" + name, *args))

    # --- normal form
    def reduce(self, x):
        for _ in range(200):
            hit = None
            for p in (x.n, x.d):
                for m in p:
                    for v, e in m:
                        if e >= 2 and v in self.sq:
                            hit = v
                            break
                    if hit is not None:
                        break
                if hit is not None:
                    break
            if hit is None:
                return x
            x = self._subst_sq(x.n, hit) / self._subst_sq(x.d, hit)
        return x

    def _subst_sq(self, p, v):
        r = self.sq[v]
        groups = {}
        for m, c in p.items():
            e = dict(m).get(v, 0)
            rest = tuple((a, b) for a, b in m if a != v)
            if e % 2:
                rest = tuple(sorted(rest + ((v, 1),)))
            g = groups.setdefault(e // 2, {})
            g[rest] = g.get(rest, 0) + c
        out = None
        for k, q in groups.items():
            t = Rat({m: c for m, c in q.items() if c}, ONE, self)
            for _ in range(k):
                t = t * r
            out = t if out is None else out + t
        return out if out is not None else self.num(0)

    def iszero(self, x):
        x = self.reduce(x)
        return not x.n

    def support(self, x, deep=True, acc=None):
        acc = set() if acc is None else acc
        for p in (x.n, x.d):
            for m in p:
                for v, _ in m:
                    if v in acc:
                        continue
                    acc.add(v)
                    k, pl = self.vars[v]
                    if deep and k != "var":
                        for a in pl:
                            if isinstance(a, Rat):
                                self.support(a, True, acc)
        return acc

    def kinds(self, x):
        return {self.vars[v][0] for v in self.support(x)}

    def free(self, v):
        """Sums of distinct monomials are independent of each other."""
        k, p = self.vars[v]
        return k.startswith(("fn:sum:", "fn:median:")) and p[0].d == ONE and \
            len(p[0].n) == 1 and all(self.vars[i][0] == "var"
                                     for m in p[0].n for i, _ in m)

    def single(self, x):
        if x.d == ONE and len(x.n) == 1:
            (m, c), = x.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return self.vars[m[0][0]]
        return None

    def compare(self, got, want):
        """True / False / None (cannot be decided).

        Equality is decided by normal forms.  A difference is only asserted
        when it is also witnessed by evaluating both expressions at a point,
        unless they contain uninterpreted functions; identities beyond the
        normal form are accepted when they hold at every sampled point
        (identity testing)."""
        st = self._compare(got, want)
        if st is True:
            return st
        d = self.differ(got, want)
        return st if d is None else not d

    def differ(self, a, b):
        """True: the expressions differ at some point; False: they agree at
        all sampled points; None: not evaluable."""
        n = 0
        for env in Points(24):
            try:
                x, y = self.evalf(a, env, {}), self.evalf(b, env, {})
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            except NotImplementedError:
                return None
            n += 1
            if abs(x - y) > 1e-6 * max(abs(x), abs(y), 1e-9):
                return True
        return False if n >= 12 else None

    def evalf(self, x, env, memo):
        def poly(p):
            t, big, exact = 0.0, 0.0, True
            for m, c in p.items():
                v = float(c)
                for i, e in m:
                    v *= self.evalv(i, env, memo) ** e
                t += v
                big = max(big, abs(v))
                exact = exact and v == int(v)
            if big and not exact and abs(t) < 1e-9 * big:
                raise ValueError("cancellation")
            return t
        d = poly(x.d)
        return (poly(x.n) if x.n else 0.0) / d

    def evalv(self, i, env, memo):
        if i in memo:
            return memo[i]
        k, p = self.vars[i]
        if k == "var":
            v = math.pi if p == "pi" else env(str(p))
        elif k in OPERATORS or k.startswith(tuple(OPERATORS)):
            v = self.operator(k, p, env)
        else:
            a = [self.evalf(q, env, memo) if isinstance(q, Rat) else q
                 for q in p]
            f = EVAL.get(k)
            if f is None:
                raise NotImplementedError(k)
            v = f(*a)
        memo[i] = v
        return v

    def operator(self, k, p, env):
        """Linear operators along a batch axis, read on a few samples: a
        difference quotient, a symmetric and a causal average."""
        def at(j):
            def e(name):
                return env(name if name == "pi" or name.startswith("len<")
                           else f"{name}@{j}")
            return [self.evalf(q, e, {}) for q in p if isinstance(q, Rat)]

        def tau(j):
            return env(f"tau@{j}")
        if k.startswith("fn:d:"):
            a, b = at(0), at(1)
            d = b[1] - a[1] if len(a) > 1 else tau(1) - tau(0)
            return (b[0] - a[0]) / d
        x = [at(j)[0] for j in range(3)]
        if k.startswith("fn:any:"):
            return max(x)
        return (x[0] + 2 * x[1] + x[2]) / 4 if "filtfilt" in k else \
            (x[0] + x[1]) / 2

    def _compare(self, got, want):
        d = self.reduce(got - want)
        if not d.n:
            return True
        a, b = self.single(got), self.single(want)
        if a and b and a[0] == b[0] and len(a[1]) == len(b[1]) and \
                a[0] in INJECTIVE:
            st = [self.compare(x, y) for x, y in zip(a[1], b[1])]
            if False in st:
                return False
        if b and b[0] == "fn:topvec" and a and a[0] in (
                "fn:bottomvec", "fn:eigvec"):
            return False
        ks = self.kinds(d)
        if any(k.startswith("fn:") for k in ks):
            wk = self.support(want)
            if any(self.vars[v][0].startswith("fn:") and v not in wk
                   and not self.free(v) for v in self.support(d)):
                return None
        new = {v for v in self.support(d, deep=False)
               if self.vars[v][0] == "angle"} - self.support(want)
        if new and not (len(got.n) == 1 and got.d == ONE):
            return None     # sums of angles have no normal form here
        roots = {v for v in self.support(d, deep=False)
                 if self.vars[v][0] in ("sqrt", "abs")}
        if len(roots) > 1:
            w = self.support(want)
            if not roots <= w:
                return None
        return False


ONE = {(): Fraction(1)}
# equal values only for equal (normalised) arguments, for generic arguments
INJECTIVE = ("fn:topvec",)


def _pmul(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                d = dict(m1)
                for v, e in m2:
                    d[v] = d.get(v, 0) + e
                m = tuple(sorted(d.items()))
            out[m] = out.get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c}


def _padd(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c}


class Rat:
    __slots__ = ("n", "d", "alg")

    def __init__(self, n, d, alg):
        self.n, self.d, self.alg = n, d, alg
        if len(n) > 20000 or len(d) > 20000:
            raise OverflowError("expression too large")

    def const(self):
        if not self.n:
            return Fraction(0)
        if set(self.n) == {()} and set(self.d) == {()}:
            return self.n[()] / self.d[()]
        return None

    def _c(self, o):
        return o if isinstance(o, Rat) else self.alg.num(o)

    def __add__(self, o):
        o = self._c(o)
        if self.d == o.d:
            return Rat(_padd(self.n, o.n), self.d, self.alg).tidy()
        return Rat(_padd(_pmul(self.n, o.d), _pmul(o.n, self.d)),
                   _pmul(self.d, o.d), self.alg).tidy()

    __radd__ = __add__

    def __neg__(self):
        return Rat({m: -c for m, c in self.n.items()}, self.d, self.alg)

    def __sub__(self, o):
        return self + (-self._c(o))

    def __rsub__(self, o):
        return self._c(o) - self

    def __mul__(self, o):
        o = self._c(o)
        return Rat(_pmul(self.n, o.n), _pmul(self.d, o.d), self.alg).tidy()

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._c(o)
        if not o.n:
            raise ZeroDivisionError
        return Rat(_pmul(self.n, o.d), _pmul(self.d, o.n), self.alg).tidy()

    def __rtruediv__(self, o):
        return self._c(o) / self

    def __pow__(self, k):
        if k < 0:
            return self.alg.num(1) / (self ** -k)
        r = self.alg.num(1)
        for _ in range(k):
            r = r * self
        return r

    def tidy(self):
        if not self.n:
            return Rat({}, ONE, self.alg)
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if not m:
                if c == 1:
                    return self
                return Rat({k: v / c for k, v in self.n.items()}, ONE,
                           self.alg)
            # cancel common monomial factor
            dm = dict(m)
            com = dict(dm)
            for k in self.n:
                dk = dict(k)
                com = {v: min(e, dk.get(v, 0)) for v, e in com.items()}
            com = {v: e for v, e in com.items() if e}
            if com:
                def red(k):
                    return tuple((v, e - com.get(v, 0)) for v, e in k
                                 if e - com.get(v, 0))
                return Rat({red(k): v for k, v in self.n.items()},
                           {red(m): c}, self.alg).tidy()
        elif self.n == self.d:
            return Rat(ONE, ONE, self.alg)
        return self

    def __repr__(self):
        def mono(m):
            return "*".join(
                f"{self.alg.show(v)}" + (f"^{e}" if e > 1 else "")
                for v, e in m)

        def poly(p):
            if not p:
                return "0"
            return " + ".join(
                (f"{c}" if not m else mono(m) if c == 1 else f"{c}*{mono(m)}")
                for m, c in sorted(p.items(), key=repr))
        if self.d == ONE:
            return poly(self.n)
        return f"({poly(self.n)})/({poly(self.d)})"


def _show(self, v):
    k, p = self.vars[v]
    if k == "var":
        return str(p)
    return f"{k}({', '.join(map(repr, p))})"


Alg.show = _show
