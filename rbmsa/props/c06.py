"""C06: the common time line is the overlap of everything that moves."""
import itertools

from ..ctx import TRUE, const, show
from .c07 import LONG, LONGS, STAR
from .matching import Orders, World, describe, explore

RULE = "timeline"
CHAIN = {"W": None, "A": "W", "B": "A", "C": "W"}   # B -> A -> W <- C


def check(ctx, rep):
    rep.rule(RULE, "the value-flow expression of the reported stamps "
                   "normalises to the stamps of the specified source "
                   "restricted by exactly the specified bounds")
    kinds = "scd"
    for ks in itertools.product(kinds, repeat=3):
        k = dict(zip("BAC", ks), W="s")
        for how in ("method", "function"):
            ctx.guarded(RULE, f"lookup_transform {how} {''.join(ks)}",
                        lambda k=k, how=how, ks=ks: look(
                            ctx, rep, k, how, "".join(ks)))
    meths = ("transform_points", "transform_vectors", "transform_quaternions")
    for m in meths:
        for ks in itertools.product(kinds, repeat=2):
            for stamps in (True, False):
                k = dict(zip("BC", ks), A="s", W="s")
                ctx.guarded(RULE, f"{m} {''.join(ks)} "
                            f"{'stamped' if stamps else 'static'}",
                            lambda m=m, k=k, stamps=stamps, ks=ks: trans(
                                ctx, rep, m, k, stamps, "".join(ks)))
    for ks in LONGS:
        k = dict(zip("BDAEC", ks), W="s")
        ctx.guarded(RULE, f"lookup_transform {ks}", lambda k=k, ks=ks: look(
            ctx, rep, k, "method", ks, LONG, "BDAEC"))
        for stamps in (True, False):
            ctx.guarded(RULE, f"transform_points {ks} {stamps}",
                        lambda k=k, ks=ks, stamps=stamps: trans(
                            ctx, rep, "transform_points", k, stamps, ks,
                            LONG, "BDAEC"))
    velocities(ctx, rep)


class Case:
    def __init__(self, w, got):
        self.w, self.got = w, got
        self.values = () if got is None else (got,)


def single(v):
    return ("T",) + tuple(v[1]) if v is not None and v[0] == "U" and \
        len(v[1]) == 1 else v


def judge(ctx, rep, make, want, con):
    """make(facts) -> (world, reported stamps or None when it raises)."""
    def verdict(c, facts):
        if c.got is None:
            return (False if not facts else None, "rejected", None)
        T = c.w.times()
        v = single(T.canon(T.try_ev(c.got)))
        ctx.kept(c.w.I, c.got)
        wt = single(want(c.w))
        if v is None:
            return (None, "stamps not understood", c.got.loc)
        ok = Orders(T, facts, c.w.data).verdict(v, wt)
        if not ok and v[0] == wt[0] == "R" and v[1] == wt[1] and \
                wt[2] < v[2] and any(o[0] == "p" for o, _ in v[2]):
            ok = None
        return (ok, f"found {describe(v)}, specified {describe(wt)}" + (
            ", where " + " and ".join(
                ("" if p else "not ") + show(c, 3) for c, p in facts)
            if facts else ""), c.got.loc)

    vs = explore(lambda facts: Case(*make(facts)), verdict)
    bad = [v for v in vs if v[0] is False]
    und = [v for v in vs if v[0] is None]
    for v in bad[:1] or und[:1] or vs[:1]:
        if v[0] is None:
            rep.unknown(RULE, con, v[1], v[2])
        else:
            rep.check(v[0], RULE, con, v[1], v[2])


def stamps(w, r, i):
    return None if r is None else w.I.cur(w.I.getitem(r, const(i)))


def look(ctx, rep, k, how, txt, tree=CHAIN, path="BAC"):
    def make(facts):
        w = World(ctx, tree, k, facts)
        if how == "method":
            r = w.method("B", "lookup_transform", [w.f["C"]])
        else:
            r = w.call(ctx.public(w.I, "lookup_transform"),
                       [w.f["B"], w.f["C"]], {"return_timestamps": TRUE})
        return w, stamps(w, r, 2)
    judge(ctx, rep, make, lambda w: w.expected(path),
          f"lookup_transform {how} path {txt}")


def trans(ctx, rep, m, k, stamped, txt, tree=CHAIN, path="BAC"):
    def make(facts):
        w = World(ctx, tree, k, facts)
        arr, t = w.array("arr", stamped)
        kw = {"return_timestamps": TRUE}
        if stamped:
            kw["timestamps"] = t
        return w, stamps(w, w.method("B", m, [arr, w.f["C"]], kw), 1)
    judge(ctx, rep, make, lambda w: w.expected(path, ["arr"]),
          f"{m} path {txt}, {'stamped' if stamped else 'static'} array")


# ------------------------------------------------------------------ velocities
def flat(v):
    """(element, elements whose first, whose last stamp bounds it): the range
    of what is itself restricted lies within each of its bounds."""
    base, lo, hi = v[1], set(), set()
    for op, s in v[2] if v[0] == "R" else ():
        if s[0] not in ("first", "last") or (op, s[0]) not in (
                (">=", "first"), ("<=", "last")):
            return None
        out = lo if op == ">=" else hi
        if isinstance(s[1], str):
            out.add(s[1])
        else:
            f = flat(s[1])
            if f is None:
                return None
            out.add(f[0])
            out |= f[1] if op == ">=" else f[2]
    return base, lo - {base}, hi - {base}


def velocities(ctx, rep):
    """Velocities combine several lookups: everything that moves among the
    frames involved bounds the reported stamps."""
    def run(con, kinds, stamped, involved, call, i):
        def verdict(c, facts):
            if c.got is None:
                return (False if not facts else None, "rejected", None)
            T = c.w.times()
            v = single(T.canon(T.try_ev(c.got)))
            f = flat(v) if v is not None and v[0] in "TR" else None
            if f is None:
                # other than stamps of one element: decided elsewhere
                return (None, f"found {describe(v)}", c.got.loc)
            el = (["arr"] if stamped else []) + [
                x for x in involved if kinds[x] == "c"]
            want = (el[0], set(el[1:]), set(el[1:]))
            txt = "; ".join(
                f"{n}: found {sorted(a)}, specified {sorted(b)}"
                for n, a, b in zip(("stamps of", "bounded below by",
                                    "bounded above by"),
                                   ([f[0]], f[1], f[2]),
                                   ([want[0]], want[1], want[2])) if a != b)
            ok = f == want
            if not ok and facts and not all(
                    Orders(T, facts, c.w.data).hard(a, p) for a, p in facts):
                ok = None
            return (ok, txt or "bounded by everything that moves", c.got.loc)

        def make(facts):
            w = World(ctx, STAR, kinds, facts)
            r = call(w)
            return Case(w, stamps(w, r, i))

        def go():
            vs = explore(make, verdict)
            bad = [v for v in vs if v[0] is False]
            und = [v for v in vs if v[0] is None]
            for v in bad[:1] or und[:1] or vs[:1]:
                if v[0] is None:
                    rep.unknown(RULE, con, v[1], v[2])
                else:
                    rep.check(v[0], RULE, con, v[1], v[2])
        ctx.guarded(RULE, con, go)

    for ks in ("css", "ccs", "ccc"):
        kinds = dict(zip("ABC", ks), W="s")
        for q, n in (("lookup_twist", 2), ("lookup_linear_velocity", 1),
                     ("lookup_angular_velocity", 1)):
            run(f"{q} {ks}", kinds, False, "ABC",
                lambda w, q=q: w.method("A", q, [w.f["B"]], {
                    "represent_in": w.f["C"], "return_timestamps": TRUE}), n)
        for q in ("transform_angular_velocity", "transform_linear_velocity"):
            for what in ("reference_frame", "moving_frame"):
                for stamped in (True, False):
                    def call(w, q=q, what=what, stamped=stamped):
                        arr, t = w.array("arr", stamped)
                        kw = {"what": const(what), "return_timestamps": TRUE}
                        if stamped:
                            kw["timestamps"] = t
                        if "linear" in q:
                            kw["moving_frame" if what[0] == "r" else
                               "reference_frame"] = w.f["C"]
                        return w.method("A", q, [arr, w.f["B"]], kw)
                    run(f"{q}({what}) {ks} "
                        f"{'stamped' if stamped else 'static'}", kinds,
                        stamped, "ABC" if "linear" in q else "AB", call, 1)
