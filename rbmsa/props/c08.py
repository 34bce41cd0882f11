"""C08: discrete frames hold their latest value."""
import itertools

from ..ctx import const, show
from ..dom.timeline import is_opaque, is_updated, mentions_equality
from .c07 import CHAIN, LONG, LONGS
from .matching import Resampling, World, describe, explore

RULE = "step-hold"


def check(ctx, rep):
    rep.rule(RULE, "data of a discrete frame reaches the result only through "
                   "a hold operation: at each stamp the value of the latest "
                   "event not after it, before the first event the first "
                   "value; never through interpolation")
    for ks in itertools.product("scd", repeat=3):
        if "d" in ks:
            k = dict(zip("BAC", ks), W="s")
            ctx.guarded(RULE, f"lookup_transform {ks}",
                        lambda k=k, ks=ks: one(ctx, rep, k, "".join(ks)))
    for ks in LONGS:
        if "d" in ks:
            k = dict(zip("BDAEC", ks), W="s")
            ctx.guarded(RULE, f"lookup_transform {ks}",
                        lambda k=k, ks=ks: one(ctx, rep, k, ks, LONG))
    for m in ("transform_points", "transform_vectors",
              "transform_quaternions"):
        for ks in ("sd", "dd", "cd", "ds", "dc"):
            for stamps in (True, False):
                ctx.guarded(RULE, f"{m} {ks} {stamps}",
                            lambda m=m, ks=ks, stamps=stamps: trans(
                                ctx, rep, m, ks, stamps))


class Case:
    def __init__(self, w, r):
        self.w, self.r, self.values = w, r, () if r is None else (r,)


def cases(rep, make, con, parts):
    """Uses of each part of the result; what depends on an open condition is
    looked at under each of its outcomes."""
    found = {}

    def verdict(c, facts):
        if c.r is None:
            return ({} if facts else {(con,): (False, "rejected", None)},
                    facts)
        out = {}
        for i, nm in parts:
            v = c.r if i is None else c.w.I.cur(c.w.I.getitem(
                c.r, const(i)))
            judge(out, c.w, v, f"{con} {nm}".strip(), nm or None)
        soft = facts and any(mentions_equality([f]) for f in facts)
        for k, v in out.items():
            if facts and v[0] is False:
                v = (None if soft else False, v[1] + ", where " + " and "
                     .join(("" if p else "not ") + show(f, 3)
                           for f, p in facts), v[2])
                out[k] = v
        return (None if any(v[0] is None for v in out.values()) else True,
                out, facts)

    for *_, out, facts in explore(make, verdict):
        if not isinstance(out, dict):
            continue
        for k, v in out.items():
            o = found.get(k)
            if o is None or v[0] is False and o[0] is not False or \
                    v[0] is None and o[0] is True:
                found[k] = v
    for (c, *_), v in found.items():
        if v[0] is None:
            rep.unknown(RULE, c, v[1], v[2])
        else:
            rep.check(v[0], RULE, c, v[1], v[2])


def trans(ctx, rep, m, ks, stamps):
    def make(facts):
        w = World(ctx, CHAIN, dict(zip("BC", ks), A="s", W="s"), facts)
        arr, t = w.array("arr", stamps)
        kw = {"timestamps": t} if stamps else {}
        return Case(w, w.method("B", m, [arr, w.f["C"]], kw))
    cases(rep, make, f"{m} path {ks}, "
          f"{'stamped' if stamps else 'static'} array", [(None, "")])


def one(ctx, rep, k, txt, tree=CHAIN):
    def make(facts):
        w = World(ctx, tree, k, facts)
        return Case(w, w.method("B", "lookup_transform", [w.f["C"]]))
    cases(rep, make, f"lookup_transform path {txt}",
          [(0, "translation"), (1, "rotation")])


def judge(out, w, value, con, need=None):
    """Adds the verdicts on the uses of discrete frames to out."""
    T = w.times()
    R = Resampling(w.data, T)
    R.walk(value)
    seen = set()
    for u in R.uses:
        if w.kinds.get(u.name) != "d":
            continue
        seen.add((u.name, u.attr))
        k = (f"{con}: {u.name}.{u.attr}", u.how)
        loc = u.node.loc
        if u.how != "hold":
            sure = not is_opaque(u.cond) and not mentions_equality(u.cond)
            v = (False if sure else None, f"{u.how} use of discrete data"
                 + ("" if sure else " on some paths"), loc)
        elif u.times != ("T", u.name):
            v = (False, f"events of {u.name} timed by {describe(u.times)}",
                 loc)
        elif u.blank and is_updated(u.cond):
            v = (None, "start value filled in elsewhere", loc)
        else:
            v = (not u.detail, u.detail or
                 "latest event not after the stamp", loc)
        o = out.get(k)
        if o is None or v[0] is False or v[0] is None and o[0]:
            out[k] = v
    for nm, k in w.kinds.items():
        if need and k == "d" and (nm, need) not in seen:
            out[(f"{con}: {nm}.{need}", "none")] = (
                None, "use not found", None)
