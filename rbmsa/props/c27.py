"""C27: the documented interface is there, with its parameters and defaults."""
import json
import os

from .. import canon
from ..ctx import N, const, cval, show, sym
from ..program import PKG

NAMES = "exported"
PARAMS = "parameters"
DEFAULTS = "defaults"
BOUND = "bound"
REQ = "required"


# --------------------------------------------------------------- signatures
def unwrap(f):
    """The function below decorators, and how it is bound."""
    how = None
    while f is not None and f.op in ("deco", "decorated"):
        if f.op == "deco" and f.meta in ("staticmethod", "classmethod",
                                         "property"):
            how = f.meta
        elif f.op == "decorated":
            how = "?"
        f = f.args[0]
    return f, how


def signature(f, method=False):
    """[(name, kind, default node or None)], or None when unknown."""
    f, how = unwrap(f)
    if f is None or f.op != "func" or how == "?":
        return None
    fi, clo, defaults, kwd, cls = f.meta
    a = fi.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nd = len(pos) - len(defaults)
    out = [(p, "pos", None if j < nd else defaults[j - nd])
           for j, p in enumerate(pos)]
    if method and how != "staticmethod":
        out = out[1:]
    if a.vararg:
        out.append((a.vararg.arg, "*", None))
    for x, d in zip(a.kwonlyargs, kwd):
        out.append((x.arg, "kw", d))
    if a.kwarg:
        out.append((a.kwarg.arg, "**", None))
    return out


def plain(d):
    if d is None:
        return REQ
    if d.op == "const":
        return {"const": cval(d)}
    if d.op in ("tuple", "list") and all(x.op == "const" for x in d.args):
        return {"const": [cval(x) for x in d.args]}
    return {"expr": d.op}


def callables(ctx, I, v):
    """(path, signature) of a public object and of its public methods."""
    while v.op == "decorated":
        v = v.args[0]
    if v.op == "func":
        yield "", signature(v)
    elif v.op == "class":
        seen = {}
        todo = [v]
        while todo:
            c = todo.pop(0)
            ci = c.meta
            for m, f in ci.members.items():
                seen.setdefault(m, f)
            todo += [b for b in ci.bases if b.op == "class"]
        for m, f in sorted(seen.items()):
            g, how = unwrap(f)
            if g is None or g.op != "func" or m.startswith("__set_"):
                continue
            if m.startswith("_") and m not in ("__init__", "__enter__",
                                               "__exit__", "__getitem__"):
                continue
            yield m, ("property" if how == "property" else
                      signature(f, True))


def spec():
    p = os.path.join(os.path.dirname(__file__), "..", "data", "api.json")
    with open(p) as fh:
        return json.load(fh)


# -------------------------------------------------------------------- check
def check(ctx, rep):
    rep.rule(NAMES, "each documented name is bound in its module, and "
                    "__all__ holds names that are bound")
    rep.rule(BOUND, "no documented name is bound to the function documented "
                    "under another name")
    rep.rule(PARAMS, "each documented parameter is accepted by name and at "
                     "its position, and nothing else is required")
    rep.rule(DEFAULTS, "a parameter left out means what its documented "
                       "default means")
    I = ctx.interp()
    want = spec()
    rep.seen(I)
    public(ctx, rep, I, want)
    for key, e in want.items():
        mod, name = key.split(":")
        env = I.st.envs.get("mod:" + mod)
        v = env.get(name) if env else None
        con = key.replace(":", ".")
        if v is None:
            rep.bad(NAMES, con, "not bound in the module")
            continue
        v = I.cur(v)
        rep.ok(NAMES, con)
        for w in sides(v):
            one(ctx, rep, I, con, w, e, key)


def sides(v):
    """What a name may be bound to (stubs for missing packages left out)."""
    if v.op == "phi":
        a, b = sides(v.args[1]), sides(v.args[2])
        out = [x for x in a + b if not stub(x)]
        return out or a
    return [v]


def stub(v):
    s = signature(v) if v.op == "func" else None
    return s is not None and [k for _, k, _ in s] == ["*", "**"]


def public(ctx, rep, I, want):
    env = I.st.envs["mod:" + PKG]
    al = env.get("__all__")
    if al is None:
        rep.bad(NAMES, "__all__", "missing")
        return
    al = I.static_items(I.cur(al))
    if al is None or any(x.op != "const" for x in al):
        rep.unknown(NAMES, "__all__", "not a list of strings")
        return
    got = [cval(x) for x in al]
    for n in got:
        rep.check(n in env, NAMES, f"__all__: {n}",
                  "" if n in env else "not bound: import * fails")
    for key in want:
        mod, name = key.split(":")
        if mod == PKG and name not in ("io", "plot", "ros"):
            rep.check(name in got, NAMES, f"__all__ holds {name}",
                      "" if name in got else "missing from __all__")


def one(ctx, rep, I, con, v, e, key):
    cur = dict(callables(ctx, I, v))
    fi = v.meta[0] if v.op == "func" else None
    own = fi.name if fi is not None else v.meta.name if \
        v.op == "class" else None
    base = key.split(":")[1]
    if own is not None:
        others = {k.split(":")[1] for k in spec()}
        alias = {"plot_" + n for n in ("points", "vectors", "quaternions",
                                       "reference_frame")}
        wrong = own != base and own != "plot_" + base and (
            own in others or own in alias)
        rep.check(not wrong, BOUND, con,
                  f"bound to {own}" if wrong else "", v.loc)
    for path, params in e.items():
        c = con + ("." + path if path else "")
        if path not in cur:
            if v.op in ("func", "class"):
                if path == "" and v.op == "class":
                    rep.unknown(PARAMS, c, "now a class")
                elif path == "__init__" or v.op == "class" and \
                        I.class_member(v.meta, path) is not None:
                    rep.unknown(PARAMS, c, "not made by a definition")
                else:
                    rep.bad(PARAMS, c, "missing")
            else:
                rep.unknown(PARAMS, c, f"bound to {show(v, 2)}")
            continue
        s = cur[path]
        if s == "property" or params == "property":
            if s is None:
                rep.unknown(PARAMS, c, "decorated")
            else:
                rep.check(s == params == "property", PARAMS, c,
                          "attribute" if s == "property" else "method")
            continue
        if s is None or params is None:
            rep.unknown(PARAMS, c, "signature not found")
            continue
        params_of(ctx, rep, I, c, s, params, v, path)


def params_of(ctx, rep, I, c, s, params, v, path):
    pos = [p for p, k, _ in s if k == "pos"]
    names = {p for p, k, _ in s if k in ("pos", "kw")}
    star = any(k == "*" for _, k, _ in s)
    dstar = any(k == "**" for _, k, _ in s)
    known = {p for p, _, _ in params}
    dflt = {p: d for p, k, d in s}
    for i, (p, k, d) in enumerate(params):
        con = f"{c}({p})"
        if k in ("*", "**"):
            has = star if k == "*" else dstar
            rep.check(True if has else None, PARAMS, con,
                      "" if has else "no longer takes any arguments")
            continue
        if p not in names:
            rep.check(None if dstar else False, PARAMS, con,
                      "not a parameter")
            continue
        if k == "pos":
            at = pos.index(p) if p in pos else None
            if at != i:
                rep.check(None if star else False, PARAMS, con,
                          f"documented at position {i}, found at {at}")
                continue
        if dflt[p] is None and d != REQ:
            rep.bad(PARAMS, con, "is now required")
            continue
        rep.ok(PARAMS, con)
        if d != REQ:
            default(ctx, rep, I, c, p, d, dflt[p], s, v, path)
    for p, k, d in s:
        if k in ("pos", "kw") and d is None and p not in known:
            rep.bad(PARAMS, f"{c}({p})", "a new required parameter")


def same(a, b):
    return a == b and isinstance(a, str) == isinstance(b, str)


def default(ctx, rep, I, c, p, want, got, s, v, path):
    con = f"{c}({p})"
    g = plain(got)
    if "const" in want and "const" in g and same(g["const"], want["const"]):
        rep.ok(DEFAULTS, con, repr(want["const"]))
        return
    if want == g:
        rep.ok(DEFAULTS, con, want["expr"])
        return
    if "const" not in want:
        rep.unknown(DEFAULTS, con, f"{want} became {g}")
        return
    # is the parameter left out treated as the documented default?
    a = outcome(ctx, c, s, v, path, {})
    b = outcome(ctx, c, s, v, path, {p: lift(want["const"])})
    if a is not None and a == b:
        rep.ok(DEFAULTS, con, "another default with the same meaning")
        return
    x, y = want["const"], g.get("const", Ellipsis)
    num = (bool, int, float)
    kind = isinstance(x, num) and isinstance(y, num) or isinstance(
        x, str) and isinstance(y, str) or x is None and isinstance(
            y, bool) and y
    rep.check(False if kind else None, DEFAULTS, con,
              f"documented {x!r}, now {y!r}", got.loc)


def lift(x):
    if isinstance(x, list):
        return N("tuple", tuple(const(q) for q in x))
    return const(x)


def outcome(ctx, c, s, v, path, kw):
    """What the call returns, does and raises, as a comparable term."""
    I = ctx.interp()
    args = {p: sym("arg:" + p, nonnull=True) for p, k, d in s
            if k in ("pos", "kw") and d is None}
    args.update(kw)
    f = I.lookup(c[:-len(".__init__")] if path == "__init__" else c)
    if path and path != "__init__":
        cls = I.lookup(c.rsplit(".", 1)[0])
        while cls.op == "decorated":
            cls = cls.args[0]
        g, how = unwrap(f)
        if how is None:
            me = sym("self", nonnull=True, cls=cls.meta)
            f = N("bound", (me, g))
        elif how == "classmethod":
            f = N("bound", (cls, g))
        else:
            f = g
    try:
        r = ctx.run(I, f, [], args)
    except Exception:       # a modelling gap: nothing is known of the call
        return None

    return canon.outcome(I, r)
