"""C24: stamps of any resolution denote points in time."""
import itertools

from ..ctx import TRUE, N, const, cval, show, sym, walk
from ..dom.deriv import TICKS
from ..dom.timeline import CAT, PEEL
from . import c33, c37
from .c07 import CHAIN, STAR
from .matching import World, looped

STORE = "stored-unit"
MEET = "same-unit"
UNITS = ("s", "ms", "us", "ns")
FRAME = "rigid_body_motion.reference_frames.ReferenceFrame"
DATES = {"numpy.datetime64", "numpy.timedelta64"}
NUMBERS = {"numpy.number", "numpy.floating", "numpy.integer", "numpy.inexact",
           "numpy.float64", "numpy.int64", "builtins.float", "builtins.int"}
CASTS = {"builtins.float", "builtins.int", "numpy.float64", "numpy.int64",
         "float", "int", "float64", "int64", "i8", "f8", "<i8", "<f8"}
KEEP = PEEL - {"m:astype", "m:view", "numpy.asarray", "numpy.array",
               "numpy.asanyarray"} | {
    "numpy.unique", "numpy.flip", "builtins.sorted", "builtins.list",
    "m:ravel", "m:flatten", "m:reshape", "numpy.reshape", "numpy.ravel",
    "numpy.max", "numpy.min", "numpy.amax", "numpy.amin", "m:max", "m:min",
    "builtins.max", "builtins.min", "numpy.maximum", "numpy.minimum",
    "elem", "m:tolist_", "numpy.compress", "numpy.take", "m:take",
    "numpy.swapaxes", "numpy.atleast_1d", "numpy.expand_dims",
    "numpy.union1d", "numpy.intersect1d", "numpy.clip"}
MAKE = {"numpy.asarray", "numpy.array", "numpy.asanyarray"}


class Truncated(Exception):
    pass


class Units:
    """Unit of a node: ("date", unit), ("num", ticks per second) or None.

    env: {node key: unit};  choice: {condition key: bool} for the conditions
    that say nothing about the type of an array."""

    def __init__(self, env, choice=None):
        self.env, self.choice = env, choice or {}
        self.memo = {}
        self.cut = []

    def ev(self, n):
        if n.k not in self.memo:
            self.memo[n.k] = None
            self.memo[n.k] = self._ev(n)
        return self.memo[n.k]

    def cond(self, c):
        """Truth of a test of an array's type, or of a chosen condition."""
        if c.op == "const":
            return bool(cval(c))
        if c.op == "not":
            t = self.cond(c.args[0])
            return None if t is None else not t
        if c.op == "truth":
            return self.cond(c.args[0])
        if c.op == "phi":
            t = self.cond(c.args[0])
            return None if t is None else self.cond(c.args[1 if t else 2])
        if c.op == "isnone" and self.ev(c.args[0]) is not None:
            return False
        if c.op == "numpy.issubdtype" and len(c.args) == 2:
            d, t = c.args
            v = self.dtype(d)
            q = t.meta if t.op == "extern" else None
            if v is not None:
                if q in DATES:
                    return v[0] == "date" and q == "numpy.datetime64"
                if q in NUMBERS:
                    return v[0] == "num"
            return None
        if c.op == "cmp" and c.meta in ("<", "<=", "==", "!="):
            # dates take eight bytes
            v = [cval(x) if x.op == "const" else 8 if x.op == "attr" and
                 x.meta == "itemsize" and (self.dtype(x.args[0]) or "x")[
                     0] == "date" else None for x in c.args]
            if all(type(x) is int for x in v):
                a, b = v
                return {"<": a < b, "<=": a <= b, "==": a == b,
                        "!=": a != b}[c.meta]
        if c.op == "cmp" and c.meta in ("==", "!=", "in", "not in"):
            for x, y in (c.args, c.args[::-1]):
                if x.op == "attr" and x.meta in ("str", "name"):
                    x = x.args[0]
                if x.op == "attr" and x.meta in ("kind", "char"):
                    v = self.dtype(x.args[0])
                    if v is None or y.op != "const":
                        continue
                    k = "M" if v[0] == "date" else "f"
                    s = cval(y)
                    r = k == s if c.meta in ("==", "!=") else \
                        isinstance(s, (str, tuple, list)) and k in s
                    return r == (c.meta in ("==", "in"))
                d, v = self.unit(y), None
                if d is not None and c.meta in ("==", "!="):
                    v = self.dtype(x)
                    if v is not None:
                        return (v == ("date", d)) == (c.meta == "==")
        return self.choice.get(c.k)

    def dtype(self, d):
        """Unit of the array whose dtype d is."""
        if d.op == "attr" and d.meta == "dtype":
            return self.ev(d.args[0])
        if d.op == "attr" and d.meta == "type":
            return self.dtype(d.args[0])
        return None

    @staticmethod
    def unit(t):
        if t.op == "numpy.dtype" and t.args:
            t = t.args[0]
        if t.op == "const" and isinstance(cval(t), str):
            for p in ("datetime64[", "<M8[", "M8[", ">M8["):
                if cval(t).startswith(p):
                    return cval(t)[len(p):-1]
        return None

    def cast(self, v, t, loc=None):
        if v is None:
            return None
        u = self.unit(t)
        if u is None and t.op == "attr" and t.meta == "dtype":
            w = self.ev(t.args[0])
            if w is None or w[0] != "date":
                return None
            u = w[1]
        if u is not None:
            if v[0] != "date" or TICKS.get(u) is None:
                return None
            if TICKS[u] < TICKS[v[1]]:
                self.cut.append((f"stamps in {v[1]} are cut to {u}", loc))
            return ("date", u)
        q = t.meta if t.op == "extern" else cval(t) if t.op == "const" \
            else None
        if q in CASTS:
            return v if v[0] == "num" else ("num", TICKS[v[1]])
        return None

    @staticmethod
    def join(vs):
        """The unit in which different stamps are combined."""
        if not vs or any(v is None or v[0] != vs[0][0] for v in vs):
            return None
        if vs[0][0] == "num":
            return vs[0] if len(set(vs)) == 1 else None
        return max(vs, key=lambda v: TICKS[v[1]])

    def _ev(self, n):
        op = n.op
        if n.k in self.env:
            return self.env[n.k]
        if op == "phi":
            t = self.cond(n.args[0])
            if t is not None:
                return self.ev(n.args[1 if t else 2])
            a, b = self.ev(n.args[1]), self.ev(n.args[2])
            return a if a == b else None
        if op == "m:view" and len(n.args) > 1:
            v, u = self.ev(n.args[0]), self.unit(n.args[1])
            if v and u and v != ("date", u):
                self.cut.append((f"the numbers of stamps in {v[1]} are taken "
                                 f"for {u}" if v[0] == "date" else
                                 f"numbers are taken for {u}", n.loc))
        if op in ("m:astype", "m:view"):
            return self.cast(self.ev(n.args[0]), n.args[1], n.loc) \
                if len(n.args) > 1 else None
        if op in MAKE:
            kw = n.meta if isinstance(n.meta, tuple) else ()
            k = len(n.args) - len(kw)
            d = n.args[k + kw.index("dtype")] if "dtype" in kw else \
                n.args[1] if k > 1 else None
            v = self.ev(n.args[0])
            return v if d is None or d.op == "const" and cval(d) is None \
                else self.cast(v, d, n.loc)
        if op in CAT or op in ("list", "tuple", "set"):
            a = [x for x in n.args if isinstance(x, N)]
            if op in CAT:
                a = a[:2] if op == "numpy.append" else a[:1]
            return self.join([self.ev(x) for x in a]) if a else None
        if op in ("numpy.maximum", "numpy.minimum", "numpy.union1d",
                  "numpy.intersect1d", "builtins.max", "builtins.min"):
            kw = n.meta if isinstance(n.meta, tuple) else ()
            a = n.args[:len(n.args) - len(kw)]
            return self.join([self.ev(x) for x in a]) if a else None
        if op == "item" or op in KEEP:
            return self.ev(n.args[0])
        if op == "attr" and n.meta in ("values", "data", "T", "flat"):
            return self.ev(n.args[0])
        if op in ("update", "mutated"):
            return None
        if op == "binop" and n.meta == "-":
            # time since some stamp, where the same is subtracted elsewhere
            return self.join([self.ev(x) for x in n.args])
        if op == "binop" and n.meta in ("/", "*"):
            v = self.ev(n.args[0])
            c = n.args[1]
            if v and v[0] == "num" and c.op == "const" and isinstance(
                    cval(c), (int, float)) and cval(c):
                return ("num", v[1] / cval(c) if n.meta == "/"
                        else v[1] * cval(c))
        return None


def ticks(v):
    return TICKS[v[1]] if v[0] == "date" else v[1]


def name(v):
    return f"datetime64[{v[1]}]" if v[0] == "date" else \
        f"numbers, {v[1]:g} per second"


def places(values):
    """(node, stamps of the samples, stamps to interpolate at)."""
    seen = set()
    for r in values:
        for n in walk(r):
            if n.k in seen:
                continue
            seen.add(n.k)
            if n.op == "applied" and \
                    n.args[0].op == "scipy.interpolate.interp1d":
                yield n, n.args[0].args[0], n.args[1]
            elif n.op == "quaternion.squad" and len(n.args) >= 3:
                yield n, n.args[1], n.args[2]
            elif n.op == "numpy.interp" and len(n.args) >= 2:
                yield n, n.args[1], n.args[0]


def opens(U, nodes):
    """Conditions between alternatives that are not decided."""
    out = {}
    for n in nodes:
        for x in walk(n):
            if x.op == "phi" and U.cond(x.args[0]) is None:
                out.setdefault(x.args[0].k, x.args[0])
    return list(out.values())


def judge(rep, con, values, env, known):
    """Every place where two time lines meet sees them in one unit."""
    n = 0
    for node, a, b in places(values):
        n += 1
        c = f"{con}: {node.op.rsplit('.')[-1]} {n}"
        U0 = Units(env)
        op = [x for x in opens(U0, (a, b)) if not looped(x)]
        if len(op) > 4:
            op = op[:0]
        worst = True
        txt = ""
        for ch in itertools.product((False, True), repeat=len(op)):
            U = Units(env, {x.k: p for x, p in zip(op, ch)})
            x, y = U.ev(a), U.ev(b)
            where = ", where " + " and ".join(
                ("" if p else "not ") + show(q, 3)
                for q, p in zip(op, ch)) if op else ""
            if U.cut:
                v, t = False, U.cut[0][0]
            elif x is None or y is None:
                v, t = None, "unit of the stamps not understood"
            else:
                v = ticks(x) == ticks(y) and x[0] == y[0]
                t = f"stamps of the samples are {name(x)}, they are " \
                    f"evaluated at stamps that are {name(y)}"
            if v is False and any(
                    any(m.k in known for m in walk(q)) and
                    "isnone" not in q.op for q in op):
                v = None
            if v is False or v is None and worst is True:
                worst, txt = v, t + where
            if v is False:
                break
        rep.check(worst, MEET, c, txt if worst is not True else "",
                  node.loc)
    return n


def stored(ctx, rep):
    """{unit of the given stamps: units of the stamps of frames}."""
    out = {}

    def build(I, how, u):
        """(constructed frame, {node key: unit})"""
        C = ctx.at(I, "reference_frames", "ReferenceFrame")
        nm, par = const("x"), ctx.frame("par")
        if how.startswith("from"):
            x = sym("x", kind="Dataset" if how == "from_dataset"
                    else "DataArray", nonnull=True)
            pos = ["tr", "ro"] if how == "from_dataset" else []
            return ctx.run(I, I.getattr(C, how), [x] + [
                const(p) for p in pos + ["tm"]] + [par], {"name": nm}), {
                    x.k: ("date", u)}
        ts = sym("ts", kind="ndarray", nonnull=True)
        kw = {k: sym(k, kind="ndarray", nonnull=True)
              for k in ("translation", "rotation")}
        kw.update(timestamps=ts, parent=par)
        env = {ts.k: ("date", u)}
        if how == "ReferenceFrame":
            return ctx.run(I, C, [nm], kw), env
        reg = ctx.registry(I)
        ctx.run(I, ctx.public(I, how), [nm], dict(kw, update=TRUE))
        got = [e.args[-1] for e in I.effects if e.kind == "mutate" and
               e.node.uid == reg.uid and "item" in str(e.how)]
        return got[-1] if got else None, env

    for how in ("ReferenceFrame", "register_frame", "from_dataset",
                "from_translation_dataarray", "from_rotation_dataarray"):
        for u in UNITS:
            con = f"{how} with stamps in {u}"

            def go():
                I = ctx.rot_interp()
                obj, env = build(I, how, u)
                if obj is None:
                    rep.unknown(STORE, con, "constructed frame not found")
                    return
                t = I.cur(I.getattr(I.cur(obj), "timestamps"))
                ctx.kept(I, t)
                U = Units(env)
                v = U.ev(t)
                if U.cut:
                    rep.bad(STORE, con, U.cut[0][0], t.loc)
                elif v is None:
                    rep.unknown(STORE, con, f"stored: {show(t, 4)}", t.loc)
                else:
                    rep.ok(STORE, con, f"stored as {name(v)}", t.loc)
                    out.setdefault(u, set()).add(v)
            ctx.guarded(STORE, con, go)
    return out


def check(ctx, rep):
    rep.rule(STORE, "the stamps a frame keeps are not cut to a coarser "
                    "resolution than they were given in")
    rep.rule(MEET, "wherever values are interpolated, the stamps of the "
                   "samples and the stamps they are evaluated at have "
                   "reached the same unit, whatever units they were given "
                   "in")
    S = stored(ctx, rep)
    pairs = [(a, b) for a in UNITS for b in UNITS]
    if not ctx.deep:
        pairs = [("us", "ns"), ("ns", "us"), ("ms", "s"), ("s", "ns"),
                 ("ms", "ms")]

    def run(con, kinds, units, call, parents=CHAIN):
        """units: {element: unit given}."""
        def go():
            w = World(ctx, parents, kinds)
            r, ts = call(w)
            if r is None:
                rep.unknown(MEET, con, "rejected")
                return
            own, alt = [], []
            for nm, f in w.f.items():
                if kinds.get(nm, "s") != "s" and S.get(units.get(nm)):
                    own.append(w.I.getattr(f, "timestamps").k)
                    alt.append(sorted(S[units[nm]]))
            vals = [r] + [c for e in w.I.raises for c, _ in e.pc]
            for us in itertools.product(*alt):
                env = dict(zip(own, us))
                if ts is not None:
                    env[ts.k] = ("date", units["arr"])
                if not judge(rep, con, vals, env, set(env)):
                    rep.unknown(MEET, con, "no place where time lines meet")
        ctx.guarded(MEET, con, go)

    for a, b in pairs:
        t = f"{a} and {b}"
        for ks in ("cc", "cd", "dc"):
            k = dict(zip("BC", ks), A="s", W="s")
            if ks == "cc":
                run(f"lookup_transform {t}", k, {"B": a, "C": b}, lambda w: (
                    w.method("B", "lookup_transform", [w.f["C"]]), None))
        for m in ("transform_points", "transform_vectors",
                  "transform_quaternions"):
            def call(w, m=m):
                arr, ts = w.array("arr")
                return w.method("B", m, [arr, w.f["C"]],
                                {"timestamps": ts}), ts
            for ks in ("cs", "sc", "cc"):
                k = dict(zip("BC", ks), A="s", W="s")
                run(f"{m} path {ks} {t}", k,
                    {"B": a, "C": a, "arr": b}, call)
        k = dict(A="c", B="c", C="s", W="s")
        for q in ("lookup_twist", "lookup_linear_velocity",
                  "lookup_angular_velocity"):
            run(f"{q} {t}", k, {"A": a, "B": b}, lambda w, q=q: (
                w.method("A", q, [w.f["B"]], {"represent_in": w.f["C"]}),
                None), STAR)
        for q in ("transform_angular_velocity",
                  "transform_linear_velocity"):
            def call(w, q=q):
                arr, ts = w.array("arr")
                kw = {"moving_frame": w.f["C"]} if "linear" in q else {}
                return w.method("A", q, [arr, w.f["B"]],
                                dict(kw, timestamps=ts)), ts
            run(f"{q} {t}", dict(k, B="s"), {"A": a, "arr": b}, call, STAR)
    # stamps given directly to numerical routines
    mine = Renamed(rep)
    for a, b in itertools.product(UNITS, UNITS):
        for axes, kw in ((("t", 4), {}), (("n", "t", 4), {"axis": 1})):
            c33.numeric(ctx, mine, axes, kw, (a, b))
    for u in UNITS:
        for f, kw in ((c37.LIN, {}), (c37.ANG, {"mode": "quaternion"}),
                      (c37.ANG, {"mode": "rotation_vector"})):
            c37.case(ctx, mine, f, ("t", "c"), kw, u)


class Renamed:
    """Report under this property's rule."""

    def __init__(self, rep):
        self.rep = rep

    def __getattr__(self, k):
        return getattr(self.rep, k)

    def check(self, ok, rule, *a):
        self.rep.check(ok, MEET, *a)

    def ok(self, rule, *a):
        self.rep.ok(MEET, *a)

    def bad(self, rule, *a):
        self.rep.bad(MEET, *a)

    def unknown(self, rule, *a):
        self.rep.unknown(MEET, *a)
