"""C21: an explicit zero is a value and not a missing argument."""
import itertools

from ..ctx import FALSE, NONE, TRUE, N, const, cval, show, sym, walk
from ..interp import FOLD, Dead
from ..canon import Canon
from .c27 import spec, unwrap

RULE = "zero-counts"
TEST = "not-by-truth"
ZERO = {"axis": 0, "time_axis": 0, "qaxis": 0, "outlier_thresh": 0.0,
        "idx": 0, "roll": 0.0, "pitch": 0.0, "yaw": 0.0, "marker_type": 0,
        "tolerance": 0.0, "arrow_len": 0.0, "timestamps": False}
# parameters that, left out, mean zero
NONE_IS_ZERO = {"time_axis"}
EXTRA = {"rigid_body_motion.ros.visualization:get_marker": {
    "": [["marker_type", "pos", {"const": None}]]}}
# arguments without which a call is rejected
NEEDS = {"transform_linear_velocity": ("moving_frame",),
         "from_euler_angles": ("rpy",)}   # with an axis
VAR = {"qmul": 2}
OPS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
PURE = {"numpy", "quaternion", "scipy", "builtins", "warnings", "op:qinv"}
DA = "rigid_body_motion.utils.is_dataarray"


def check(ctx, rep):
    rep.rule(RULE, "the call with an explicit zero does not have the same "
                   "outcome as the call without the argument, unless "
                   "leaving it out means zero")
    rep.rule(TEST, "no value is selected by the truth of the argument, "
                   "unless the alternatives agree where it is zero")
    for key, e in list(spec().items()) + list(EXTRA.items()):
        for path, params in e.items():
            if params == "property" or not params:
                continue
            for p, k, d in params:
                if p in ZERO and isinstance(d, dict):
                    lab = any(q == "dim" for q, *_ in params)
                    for da in (False, True) if lab else (False,):
                        if p == "timestamps" and not da:
                            continue
                        con = key.replace(":", ".") + (
                            "." + path if path else "")
                        c = f"{con}({p}={ZERO[p]!r})" + (
                            " of a DataArray" if da else "")
                        for also in also_given(con, p, da):
                            c1 = c + (f" with {also}" if also else "")
                            ctx.guarded(RULE, c1, lambda: one(
                                ctx, rep, c1, con, path, params, p, d, da,
                                also))


def run(ctx, con, path, params, kw, da, more=0):
    """(interpreter, result) of the call."""
    I = ctx.interp()
    I.overrides[DA] = lambda I, a, k: TRUE if da else FALSE
    f = I.lookup(con[:-len(".__init__")] if path == "__init__" else con)
    args = {p: sym("arg:" + p, nonnull=True) for p, k, d in params
            if k in ("pos", "kw") and d == "required"}
    if any(p == "timestamps" for p, *_ in params):
        args.setdefault("timestamps", sym("arg:timestamps", nonnull=True))
    args.update(kw)
    if args.get("timestamps") is NONE:
        del args["timestamps"]
    if path and path != "__init__":
        cls = I.lookup(con.rsplit(".", 1)[0])
        while cls.op == "decorated":
            cls = cls.args[0]
        g, how = unwrap(f)
        if how is None:
            me = sym("self", nonnull=True, cls=cls.meta)
            f = N("bound", (me, g))
        elif how == "classmethod":
            f = N("bound", (cls, g))
        else:
            f = g
    try:
        first = [args.pop(q) for q, k, d in params if more and k == "pos"
                 and q in args]
        r = I.call(f, first + [sym(f"more{i}", nonnull=True)
                               for i in range(more)], args)
    except Dead:
        r = None
    ctx.rep.seen(I)
    return I, r


def plug(n, p, z, memo):
    """The term with constant z for p, folded."""
    if n.k in memo:
        return memo[n.k]
    if n.k == p.k:
        return z

    def sub(x):
        if isinstance(x, N):
            return plug(x, p, z, memo)
        return tuple(map(sub, x)) if isinstance(x, tuple) else x
    args = tuple(map(sub, n.args))
    r = None
    cs = [cval(x) for x in args if isinstance(x, N) and x.op == "const"]
    full = len(cs) == len(args)
    try:
        if n.op == "binop" and full:
            r = const(FOLD[n.meta](*cs))
        elif n.op == "binop" and n.meta in "+-" and args[1].op == "const" \
                and cval(args[1]) == 0:
            r = args[0]
        elif n.op in ("truth", "not") and full:
            r = const(bool(cs[0]) == (n.op == "truth"))
        elif n.op == "isnone" and full:
            r = const(cs[0] is None)
        elif n.op == "cmp" and full and n.meta in OPS:
            r = const(OPS[n.meta](*cs))
        elif n.op == "phi" and args[0].op == "const":
            r = args[1 if cval(args[0]) else 2]
    except Exception:
        r = None
    if r is None:
        r = n if args == n.args else N(n.op, args, n.meta, loc=n.loc)
    memo[n.k] = r
    return r


def consts(n, facts, memo):
    """The term under assumed conditions, folded."""
    if n.k in facts:
        return const(facts[n.k])
    if n.k in memo:
        return memo[n.k]

    def sub(x):
        if isinstance(x, N):
            return consts(x, facts, memo)
        return tuple(map(sub, x)) if isinstance(x, tuple) else x
    args = tuple(map(sub, n.args))
    if n.op == "phi" and args[0].op == "const":
        r = args[1 if cval(args[0]) else 2]
    elif n.op in ("truth", "not") and args[0].op == "const":
        r = const(bool(cval(args[0])) == (n.op == "truth"))
    else:
        r = n if args == n.args else N(n.op, args, n.meta, loc=n.loc)
    memo[n.k] = r
    return r


class Terms:
    """What a call computes, as terms that can be specialised."""

    def __init__(self, I, r):
        self.items = [((), "result", (r,))] if r is not None else []
        for e in I.effects:
            self.items.append((tuple(e.pc or ()), e.kind + str(e.how), tuple(
                x for x in (e.node,) + tuple(e.args or ())
                if isinstance(x, N))))
        for op, n, *rest in I.calls:
            if op.split(".")[0] in PURE:
                continue
            self.items.append((tuple(rest[2] or ()), op, (n,)))
        for e in I.raises:
            self.items.append((tuple(e.pc), "raise " + str(e.how), ()))

    def under(self, facts):
        memo = {}
        for pc, what, ns in self.items:
            q = []
            for c, pol in pc:
                c = consts(c, facts, memo)
                if c.op == "const":
                    if bool(cval(c)) != pol:
                        break
                else:
                    q.append((c, pol))
            else:
                yield (what, tuple(consts(n, facts, memo) for n in ns)
                       + tuple(c for c, _ in q), tuple(p for _, p in q))

    def base(self):
        c = Canon()
        return [(w, tuple(map(c, ns)), tuple((c(q), p) for q, p in pc))
                for pc, w, ns in self.items]

    @staticmethod
    def same(A, B):
        """Are two sequences of specialised terms equal?"""
        c, d = Canon(), Canon()
        for a, b in itertools.zip_longest(A, B):
            if a is None or b is None or a[0] != b[0] or a[2] != b[2] or \
                    len(a[1]) != len(b[1]) or any(
                        c(x) != d(y) for x, y in zip(a[1], b[1])):
                return False
        return True

    def nodes(self, terms):
        seen = set()
        for _, ns, _ in terms:
            for n in ns:
                if n.k not in seen:
                    for x in walk(n):
                        if x.k not in seen:
                            seen.add(x.k)
                            yield x


def marks(p):
    """Does a term mention p (or the current element of a loop)?"""
    memo = {}

    def has(root):
        st = [root]
        while st:
            n = st[-1]
            if n.k in memo:
                st.pop()
                continue
            kids = [x for a in n.args for x in (
                a if isinstance(a, tuple) else (a,)) if isinstance(x, N)]
            todo = [x for x in kids if x.k not in memo]
            if todo:
                st.extend(todo)
                continue
            m = {y for x in kids for y in memo[x.k]}
            if n.k == p.k:
                m.add("p")
            if n.op in ("elem", "mu"):
                m.add("loop")
            memo[n.k] = frozenset(m)
            st.pop()
        return memo[root.k]
    return has


def cases(T, has):
    """Conditions between alternatives that do not mention p."""
    out, done = {}, set()

    def atoms(c):
        if c.k in done:
            return
        done.add(c.k)
        while c.op in ("not", "truth") and c.args[0].op in (
                "not", "truth", "cmp", "isnone", "phi"):
            c = c.args[0]
        if c.op == "phi":
            for a in c.args:
                atoms(a)
        elif c.op != "const" and not has(c):
            out.setdefault(c.k, c)
    for pc, _, ns in T.items:
        for c, _ in pc:
            atoms(c)
    for n in T.nodes(T.under({})):
        if n.op == "phi":
            atoms(n.args[0])
    return list(out.values())[:16]


def tests(n, p):
    """Does a condition consist of the truth of p, maybe negated?  Polarity
    under which p is taken for given, or None."""
    if n.op == "not":
        t = tests(n.args[0], p)
        return None if t is None else not t
    if n.op in ("truth", "builtins.bool", "numpy.any", "numpy.all"):
        return True if n.args[0].k == p.k else tests(n.args[0], p)
    return None


def also_given(con, p, da):
    """Other arguments that matter: each alone, or none."""
    yield None
    if p in ("roll", "pitch", "yaw"):
        yield "rpy"
    if p == "axis" and da:
        yield "dim"


def one(ctx, rep, c, con, path, params, p, d, da, also):
    name = (con.rsplit(".", 1)[-1], p)
    extra = {}
    for q, k, dd in params:
        for f in NEEDS.get(name[0], ()):
            if f == q and q != p and (f != "rpy" or p == "axis"):
                extra[q] = sym("arg:" + q, nonnull=True)
    if also:
        extra[also] = sym("arg:" + also, nonnull=True)
    args = VAR.get(name[0], 0)
    z = const(ZERO[p])
    zero = p in NONE_IS_ZERO or d.get("const", None) == 0 and \
        d.get("const") is not None
    x = sym("arg:" + p, nonnull=True)
    if p == "timestamps":
        extra[p] = NONE
    I, r = run(ctx, con, path, params, dict(extra), da, args)
    I0, r0 = run(ctx, con, path, params, dict(extra, **{p: z}), da, args)
    Ix, rx = run(ctx, con, path, params, dict(extra, **{p: x}), da, args)
    T, T0, Tx = Terms(I, r), Terms(I0, r0), Terms(Ix, rx)
    if rx is None and not da and not Ix.effects:
        rep.unknown(RULE, c, "every path raises")
    if not zero and not (r is None and r0 is None):
        bad = None
        has = marks(x)
        # what is the same anyway stays the same in every case
        A, B = (U.base() for U in (T, T0))
        T.items = [i for i, k in zip(T.items, A) if k not in B]
        T0.items = [i for i, k in zip(T0.items, B) if k not in A]
        Tx.items = [(pc, w, ns) for pc, w, ns in Tx.items if any(
            "p" in has(n) for n in ns + tuple(c for c, _ in pc))]
        cs = cases(Tx, has)
        for facts in [{}] + [{q.k: v} for q in cs for v in (True, False)]:
            if Terms.same(T.under(facts), T0.under(facts)) and any(
                    "p" in has(n) for _, ns, _ in Tx.under(facts)
                    for n in ns):
                bad = facts
                break
        txt = ""
        if bad is not None:
            txt = "same outcome as without the argument" + "".join(
                f", where {'' if v else 'not '}" + show(next(
                    q for q in cs if q.k == k), 3) for k, v in bad.items())
        rep.check(bad is None, RULE, c, txt, (rx or r or r0).loc
                  if rx or r or r0 else None)
    # the same by the alternatives the argument selects
    I, r = Ix, rx
    bad = None
    seen = set()
    roots = ([r] if r is not None else []) + [
        y for e in I.effects for y in (e.node,) + tuple(e.args or ())
        if isinstance(y, N)] + [n for _, n, *_ in I.calls]
    for e in I.raises:
        for q, pol in e.pc:
            if tests(q, x) is not None and tests(q, x) != pol:
                bad = bad or (e, "raises for zero")
    for root in roots:
        if root.k in seen:
            continue
        for n in walk(root):
            if n.k in seen:
                continue
            seen.add(n.k)
            if n.op != "phi":
                continue
            t = tests(n.args[0], x)
            if t is None:
                continue
            a, b = n.args[1:] if t else n.args[:0:-1]
            memo = {}
            a, b = plug(a, x, z, memo), plug(b, x, z, memo)
            if Canon()(a) != Canon()(b):
                bad = bad or (n, f"zero selects {show(b, 3)}")
    rep.check(bad is None, TEST, c, bad[1] if bad else "",
              bad[0].loc if bad else None)
