"""C10: queries have no side effects and return values of their own."""
from .. import lib
from ..ctx import NONE, TRUE, Dead, N, sym
from . import entries as E_

RULE = "pure-query"
OWN = "own-result"
CACHE = "no-stale-cache"
FRAMES = {"self", "frame", "outof", "into", "reference", "represent_in",
          "moving_frame", "to_frame", "from_frame", "reference_frame",
          "root", "of", "parent", "base"}
WRITERS = {"register_frame", "deregister_frame", "clear_registry",
           "ReferenceFrame.register", "ReferenceFrame.deregister"}


def base(n):
    while n.op in ("update", "mutated", "setattr"):
        n = n.args[0]
    return n


def persistent(I, n, memo, born=()):
    """Root describing state that outlives the call, or None; 'unknown'."""
    un = None
    for r in lib.roots(n, memo):
        if r.kind == "global":
            return r
        if r.kind == "input":
            nm = str(r.node.meta[0] if isinstance(r.node.meta, tuple)
                     else r.node.meta)
            if nm.split(":")[-1] in FRAMES:
                return r
        if r.kind == "unknown":
            un = r
    return un


def entry_list(ctx, I):
    out = [e for e in E_.functions(ctx, I) if e.label not in WRITERS]
    out += [e for e in E_.methods(ctx, I, ctx.C, lambda J: ctx.frame("self"))
            if e.label not in WRITERS and not e.fi.name.startswith("from_")]
    return out


def check(ctx, rep):
    rep.rule(RULE, "no store to the registry, to module state or to a frame "
                   "on any path from the query")
    rep.rule(OWN, "the arrays and collections a lookup returns share no "
                  "memory with the registry or with a frame")
    rep.rule(CACHE, "no memoised result depends on the registry or on a "
                    "frame")
    I0 = ctx.interp()
    ents = entry_list(ctx, I0)
    rep.count("queries", len(ents))
    for e in ents:
        for which in (0, 1):
            ctx.guarded(RULE, f"{e.label} variant {which}",
                        lambda e=e, which=which: one(ctx, rep, e, which))
    # properties (attributes computed on access)
    for nm, m in sorted(ctx.C.members.items()):
        if m.op == "deco" and m.meta == "property":
            ctx.guarded(RULE, f"ReferenceFrame.{nm} (property)",
                        lambda nm=nm: prop(ctx, rep, nm))


def is_frame_like(ctx, n):
    b = base(n)
    return b.op == "item" and any(r.kind == "global"
                                  for r in lib.roots(b)) or (
        b.op == "in" and "frame" in str(b.meta))


def judge(ctx, rep, I, label, status):
    memo = {}
    hit = None
    vague = None
    new = {ef.node.uid for ef in I.effects if ef.kind == "new"}
    for ef in I.effects:
        if ef.kind == "global_write":
            if hit is None:
                hit = (ef, f"module variable {ef.how}")
            continue
        if ef.kind not in ("mutate", "setattr"):
            continue
        b = base(ef.node)
        if b.op == "inst" or b.uid in new:
            if not any(r.kind == "global" for r in lib.roots(b, memo)):
                continue
        if ef.kind == "setattr" and b.op in lib.WRAPS:
            continue
        if is_user_object(b):
            continue
        r = persistent(I, ef.node, memo)
        if r is None:
            continue
        if r.kind == "unknown":
            vague = vague or ef
        else:
            hit = hit or (ef, f"{ef.how} on {r.node.op} {r.node.meta}")
    if hit:
        rep.bad(RULE, label, hit[1], hit[0].loc)
    elif status == "budget":
        rep.unknown(RULE, label, "budget")
    elif vague:
        rep.unknown(RULE, label, f"{vague.how} on a value of unknown origin",
                    vague.loc)
    else:
        rep.ok(RULE, label, f"{len(I.effects)} effects")
    # caches
    bad = None
    for ef in I.effects:
        if ef.kind == "decorated_call" and "cache" in str(ef.how):
            if depends(I, ef):
                bad = ef
    if bad:
        rep.bad(CACHE, label, f"{bad.how} result depends on frames that may "
                "change", bad.loc)


def is_user_object(b):
    """Objects of other kinds passed by the caller (axes, publishers)."""
    while b.op in ("attr", "item", "method") and b.args:
        b = b.args[0]
    if b.op == "in":
        nm = str(b.meta[0] if isinstance(b.meta, tuple) else b.meta)
        return nm.split(":")[-1] in ("ax", "fig", "publisher")
    return False


def depends(I, ef):
    """The cached value reads the registry or a frame."""
    seen = set()
    st = [n for n in [ef.extra] if n is not None]
    n0 = 0
    while st and n0 < 20000:
        n = st.pop()
        n0 += 1
        if not isinstance(n, N) or n.k in seen:
            continue
        seen.add(n.k)
        if n.op in ("global_state",):
            return True
        for r in lib.roots(n):
            if r.kind == "global":
                return True
        if n.op == "attr" and n.meta in ("translation", "rotation",
                                         "timestamps", "discrete", "parent",
                                         "path", "children", "name"):
            return True
        for a in n.args:
            if isinstance(a, tuple):
                st.extend(x for x in a if isinstance(x, N))
            elif isinstance(a, N):
                st.append(a)
    return False


def one(ctx, rep, e, which):
    ps, req = E_.params(e.fi)
    extra = {p: ctx.frame("arg:" + p) for p in ps
             if p in FRAMES and p != "self" and (which or p in req)}
    if "into" in extra and "outof" in extra:
        extra["into"] = sym("arg:into", kind="str", nonnull=True)
    I, r, status = E_.drive(ctx, e, which, extra)
    lab = f"{e.label}() {'all arguments' if which else 'defaults'}"
    judge(ctx, rep, I, lab, status)
    if r is not None and e.fi.name.startswith(("lookup_", "get_", "render_")):
        own(ctx, rep, I, r, lab)


def own(ctx, rep, I, r, lab):
    bad = vague = None
    memo = {}
    for x, what in leaves(I, r):
        p = persistent(I, x, memo)
        if p is None:
            continue
        if p.kind == "unknown":
            vague = what
        elif not immutable(x):
            bad = bad or (what, x, p)
    if bad:
        rep.bad(OWN, lab, f"{bad[0]} shares memory with {bad[2].node.op} "
                f"{bad[2].node.meta}", getattr(bad[1], "loc", None))
    elif vague:
        rep.unknown(OWN, lab, f"{vague} has an unknown origin")
    else:
        rep.ok(OWN, lab, "")


def immutable(n):
    return n.op in ("const", "str", "fstr")


def leaves(I, r, what="result", seen=None):
    """Data parts of a result."""
    seen = set() if seen is None else seen
    if r.k in seen:
        return
    seen.add(r.k)
    if r.op == "phi":
        yield from leaves(I, r.args[1], what, seen)
        yield from leaves(I, r.args[2], what, seen)
    elif r.op in ("tuple", "list"):
        for i, a in enumerate(r.args):
            if isinstance(a, N):
                yield from leaves(I, a, f"{what}[{i}]", seen)
    elif r.op not in ("const", "in"):
        yield r, what


def prop(ctx, rep, nm):
    I = ctx.interp()
    f = ctx.frame("self")
    I.effects, I.raises = [], []
    try:
        r = I.getattr(f, nm)
    except Dead:
        r = None
    rep.seen(I)
    judge(ctx, rep, I, f"ReferenceFrame.{nm} (property)", "ok")
