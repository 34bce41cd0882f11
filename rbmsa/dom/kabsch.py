"""Sums over samples and singular value decompositions of 3x3 matrices.

The decomposition of a matrix A is taken up to the freedom a user cannot
rely on: its factors are atoms of the matrix (up to a positive factor), and
the decomposition of the transposed matrix has the same atoms with the
factors exchanged.  Determinants of products of the factors are signs.
"""
from ..ir import is_none
from .algebra import ONE, Rat
from .arrays import Arr, ArrayEval, Err, Top, idxs


class MatEval(ArrayEval):
    signs = (1, 1)          # det U, det V
    planar = False          # one singular value is zero
    ref = None              # matrix whose decomposition is specified

    # -- sums: factors that do not depend on the sample move out
    def invariant(self, v, lab):
        k, p = self.alg.vars[v]
        if k == "var":
            return str(p) == "pi" or str(p).startswith(
                ("len<", "U[", "V[", "S["))
        if k in ("fn:sum:" + lab, "fn:median:" + lab):
            return True
        return all(self.invariant(w, lab) for a in p if isinstance(a, Rat)
                   for w in self.alg.support(a, deep=False))

    def total(self, lab, x):
        al = self.alg
        if any(not self.invariant(v, lab) for m in x.d for v, _ in m):
            return al.fn("sum:" + lab, x)
        out = al.num(0)
        for m, c in x.n.items():
            inn = tuple(t for t in m if not self.invariant(t[0], lab))
            ext = tuple(t for t in m if self.invariant(t[0], lab))
            s = al.fn("sum:" + lab, Rat({inn: c / c}, ONE, al)) if inn \
                else self.length(lab)
            out = out + s * Rat({ext: c}, ONE, al)
        return out / Rat(x.d, ONE, al)

    def statistic(self, n, name):
        a = self.arr(n.args[0])
        ax = self.val(n.args[1]) if len(n.args) > 1 else None
        if a.quat or a.cells is None or not isinstance(ax, int):
            return Top(name, n.loc)
        i = self.ax(ax, a.ndim, n.loc)
        lab = a.axes[i]
        if not isinstance(lab, str):
            return Top(name, n.loc)
        return Arr(a.axes[:i] + a.axes[i + 1:], {
            k: self.alg.fn(f"{name}:{lab}", c) for k, c in a.cells.items()})

    def o_numpy_median(self, n):
        return self.statistic(n, "median")

    # -- products
    def dot(self, a, b, loc):
        if a.quat or b.quat:
            return Top("dot", loc)
        if not a.axes or not b.axes:
            return self.arith("*", a, b, loc)
        i, j = a.ndim - 1, max(b.ndim - 2, 0)
        if b.ndim > 2 or a.ndim > 2:
            return Top("dot", loc)
        if a.axes[i] != b.axes[j]:
            return Err(f"product of axes {list(a.axes)} and "
                       f"{list(b.axes)}", loc)
        axes = a.axes[:i] + b.axes[:j] + b.axes[j + 1:]
        if a.cells is None or b.cells is None:
            return Arr(axes, None)
        lab = a.axes[i]
        cells = {}
        na = sum(isinstance(x, int) for x in a.axes[:i])
        for ix in idxs(axes):
            l, r = ix[:na], ix[na:]
            if isinstance(lab, str):
                c = self.total(lab, a.cells[l] * b.cells[
                    (r if j == 0 else r)])
            else:
                c = self.alg.num(0)
                for k in range(lab):
                    rk = (k,) + r if isinstance(b.axes[j], int) else r
                    c = c + a.cells[l + (k,)] * b.cells[rk]
            cells[ix] = c
        return Arr(axes, cells)

    def o_numpy_dot(self, n):
        return self.dot(self.arr(n.args[0]), self.arr(n.args[1]), n.loc)

    def matmul(self, a, b, loc):
        return self.dot(a, b, loc)

    o_numpy_matmul = o_m_dot = o_numpy_dot

    def o_numpy_diag(self, n):
        a = self.arr(n.args[0])
        if a.ndim != 1 or not isinstance(a.axes[0], int) or a.cells is None:
            return Top("diag", n.loc)
        k = a.axes[0]
        z = self.alg.num(0)
        return Arr((k, k), {(i, j): a.cells[(i,)] if i == j else z
                            for i in range(k) for j in range(k)})

    def o_numpy_eye(self, n):
        k = self.int(n.args[0])
        return Arr((k, k), {(i, j): self.alg.num(int(i == j))
                            for i in range(k) for j in range(k)})

    o_numpy_identity = o_numpy_eye

    # -- decomposition
    def parallel(self, A, B):
        """A is a positive multiple of B: True / False / None."""
        al = self.alg
        r = None
        for k in B:
            if al.iszero(B[k]):
                if not al.iszero(A[k]):
                    return False
                continue
            r = al.reduce(A[k]) / al.reduce(B[k])
            break
        pos = r is not None and r.n and r.const() is not None
        if pos:
            pos = r.const() > 0
        f = A[k] / B[k]
        if r is not None and r.const() is not None and not pos:
            return False
        if all(al.iszero(A[q] * B[k] - A[k] * B[q]) for q in B):
            if self.positive_length(-f):
                return False
            return True if pos or self.positive_length(f) else None
        return False

    def positive_length(self, x):
        def ok(p):
            return len(p) == 1 and all(
                c > 0 and all(self.alg.vars[v][0] == "var" and str(
                    self.alg.vars[v][1]).startswith("len<") for v, _ in m)
                for m, c in p.items())
        x = self.alg.reduce(x)
        if ok(x.n) and ok(x.d):
            return True
        # common polynomial factors: compare with the simplest candidate
        for lab in {self.alg.vars[v][1] for v in self.alg.support(x)
                    if self.alg.vars[v][0] == "var" and str(
                        self.alg.vars[v][1]).startswith("len<")}:
            L = self.alg.var(lab)
            for c in (L, 1 / L):
                q = x / c
                if self.alg.iszero(q - self.alg.num(1)):
                    return True
        return self.alg.iszero(x - self.alg.num(1))

    def factor(self, nm):
        return Arr((3, 3), {(i, j): self.alg.var(f"{nm}[{i},{j}]")
                            for i in range(3) for j in range(3)})

    def o_numpy_linalg_svd(self, n):
        a = self.arr(n.args[0])
        if a.axes != (3, 3):
            return Err(f"decomposition of axes {list(a.axes)}", n.loc)
        if a.cells is None or self.ref is None:
            return Top("svd", n.loc)
        T = {(i, j): a.cells[(j, i)] for i, j in a.cells}
        p = self.parallel(a.cells, self.ref)
        q = self.parallel(T, self.ref)
        U, V = self.factor("U"), self.factor("V")
        S = Arr((3,), {(i,): self.alg.var(f"S[{i}]") for i in range(3)})
        if p:
            return (U, S, self.permute(V, [1, 0]))
        if q:
            return (V, S, self.permute(U, [1, 0]))
        if p is False and q is False:
            return Err("decomposition of a matrix that is not the cross "
                       "covariance of the two arrays", n.loc)
        return Top("svd", n.loc)

    def product(self, s):
        """Sum of s_k v_k u_k^T as cells."""
        U, V = self.factor("U").cells, self.factor("V").cells
        out = {}
        for i in range(3):
            for j in range(3):
                c = self.alg.num(0)
                for k in range(3):
                    c = c + self.alg.num(s[k]) * V[(i, k)] * U[(j, k)]
                out[(i, j)] = c
        return out

    def o_numpy_linalg_det(self, n):
        a = self.arr(n.args[0])
        if a.axes != (3, 3) or a.cells is None:
            return Top("det", n.loc)
        dU, dV = self.signs
        T = {(i, j): a.cells[(j, i)] for i, j in a.cells}
        for nm, d in (("U", dU), ("V", dV)):
            F = self.factor(nm).cells
            for c in (a.cells, T):
                if all(self.alg.iszero(F[k] - c[k]) for k in F):
                    return Arr((), {(): self.alg.num(d)})
        for s in ((x, y, z) for x in (1, -1) for y in (1, -1)
                  for z in (1, -1)):
            P = self.product(s)
            for c in (a.cells, T):
                if all(self.alg.iszero(P[k] - c[k]) for k in P):
                    return Arr((), {(): self.alg.num(
                        s[0] * s[1] * s[2] * dU * dV)})
        # products of the factors in other layouts
        U, V = self.factor("U"), self.factor("V")
        for x in (U, self.permute(U, [1, 0])):
            for y in (V, self.permute(V, [1, 0])):
                for p, q in ((x, y), (y, x)):
                    P = self.dot(p, q, n.loc).cells
                    if all(self.alg.iszero(P[k] - a.cells[k]) for k in P):
                        return Arr((), {(): self.alg.num(dU * dV)})
        if self.ref is not None and (self.parallel(a.cells, self.ref) or
                                     self.parallel(T, self.ref)):
            # some number of the sign of the determinant
            return Arr((), {(): self.alg.num(
                0 if self.planar else dU * dV)})
        return Top("det", n.loc)

    def o_numpy_einsum(self, n):
        spec = self.val(n.args[0])
        if not isinstance(spec, str) or "->" not in spec or \
                len(n.args) != 3:
            return Top("einsum", n.loc)
        ins, out = spec.replace(" ", "").split("->")
        ins = ins.split(",")
        a, b = self.arr(n.args[1]), self.arr(n.args[2])
        if len(ins) != 2 or len(ins[0]) != a.ndim or len(ins[1]) != b.ndim \
                or a.cells is None or b.cells is None:
            return Top("einsum", n.loc)
        size = {}
        for s, x in zip(ins, (a, b)):
            for c, ax in zip(s, x.axes):
                if size.setdefault(c, ax) != ax:
                    return Err(f"subscript {c} stands for axes {size[c]} "
                               f"and {ax}", n.loc)
        free = [c for c in size if isinstance(size[c], int)]
        cells = {}
        for ix in idxs(tuple(size[c] for c in free)):
            at = dict(zip(free, ix))

            def cell(s, x):
                return x.cells[tuple(at[c] for c in s if c in at)]
            v = cell(ins[0], a) * cell(ins[1], b)
            for c in size:
                if c not in out and isinstance(size[c], str):
                    v = self.total(size[c], v)
            k = tuple(at[c] for c in out if c in at)
            cells[k] = cells[k] + v if k in cells else v
        return Arr(tuple(size[c] for c in out), cells)

    def o_numpy_sign(self, n):
        a = self.arr(n.args[0])
        c = a.cells[()].const() if a.axes == () and a.cells else None
        if c is None:
            return Top("sign", n.loc)
        return Arr((), {(): self.alg.num((c > 0) - (c < 0))})

    def number(self, v):
        if isinstance(v, Arr) and v.axes == () and v.cells and not v.quat:
            c = v.cells[()].const()
            if c is not None:
                return float(c)
        return v

    def cmp(self, n):
        x, y = (self.number(self.ev(a)) for a in n.args[:2])
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            return {"==": x == y, "<": x < y, "<=": x <= y}.get(n.meta)
        return super().cmp(n)

    def o_quaternion_from_rotation_matrix(self, n):
        a = self.arr(n.args[0])
        if a.axes != (3, 3):
            return Err(f"rotation matrix of axes {list(a.axes)}", n.loc)
        if a.cells is None:
            return Top("rotation matrix", n.loc)
        return self.quat_of(a)

    def quat_of(self, a):
        c = [a.cells[k] for k in sorted(a.cells)]
        return Arr((), {(): tuple(self.alg.fn(f"quat{i}", *c)
                                  for i in range(4))}, True)

    minlen = 3

    def o_op_rotate(self, n):
        """v rotated by the quaternion of a rotation matrix."""
        q, v = self.val(n.args[0]), self.arr(n.args[1])
        ax = self.val(n.args[2]) if len(n.args) > 2 else -1
        if isinstance(q, Arr) and not q.quat and q.axes == (4,):
            q = Arr((), {(): tuple(q.cells[(i,)] for i in range(4))}, True)
        if not isinstance(q, Arr) or q.axes or not q.cells or \
                v.cells is None or not isinstance(ax, int):
            return Top("op:rotate", n.loc)
        p = [self.alg.single(c) for c in q.cells[()]]
        if [x and x[0] for x in p] != [f"fn:quat{i}" for i in range(4)]:
            return Top("op:rotate", n.loc)
        M = p[0][1]
        i = self.ax(ax, v.ndim, n.loc)
        if v.axes[i] != 3:
            return Err(f"rotation of axes {list(v.axes)}", n.loc)
        k = sum(isinstance(x, int) for x in v.axes[:i])
        return Arr(v.axes, {ix: sum(
            (M[3 * ix[k] + j] * v.cells[ix[:k] + (j,) + ix[k + 1:]]
             for j in range(3)), self.alg.num(0)) for ix in v.cells})

    def o_numpy_transpose(self, n):
        if len(n.args) < 2 or is_none(n.args[1]):
            a = self.arr(n.args[0])
            return self.permute(a, list(range(a.ndim))[::-1])
        return super().o_numpy_transpose(n)

    def o_numpy_append(self, n):
        a, b = self.arr(n.args[0]), self.arr(n.args[1])
        if not b.axes:
            b = self.stack([b], 0, n.loc)
        return self.concat([a, b], 0, n.loc)


def reference(E, x1, x2, centred):
    """Cross covariance of two (lab, 3) arrays."""
    lab = x1.axes[0]
    L = E.length(lab)
    a = [x1.cells[(i,)] for i in range(3)]
    b = [x2.cells[(i,)] for i in range(3)]
    H = {}
    for i in range(3):
        for j in range(3):
            h = E.total(lab, a[i] * b[j])
            if centred:
                h = h - E.total(lab, a[i]) * E.total(lab, b[j]) / L
            H[(i, j)] = h
    m1 = [E.total(lab, c) / L for c in a]
    m2 = [E.total(lab, c) / L for c in b]
    return H, m1, m2
