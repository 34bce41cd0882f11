"""C09: data handed to the package is never modified in place."""
from .. import lib
from ..ctx import PKG, sym
from . import entries as E_

RULE = "no-input-write"


def entry_list(ctx, I):
    out = E_.functions(ctx, I)
    have = {id(e.fi) for e in out}
    for e in E_.module_functions(ctx, I, (
            "coordinate_systems", "core", "estimators", "utils", "io",
            "plotting", "plot", "ros.msg", "ros.utils", "testing")):
        if id(e.fi) not in have:
            have.add(id(e.fi))
            out.append(e)
    out += E_.methods(ctx, I, ctx.C, lambda J: ctx.frame("self"))
    for ci in ctx.p.classes.values():
        if ci.name.endswith("Accessor"):
            def make(J, ci=ci):
                return J.call(E_.class_node(J, ci), [sym("arg:obj")], {})
            out += E_.methods(ctx, I, ci, make)
    # constructors
    for ci in ctx.p.classes.values():
        if ci.name == "ReferenceFrame" or ci.module.name == PKG + ".core":
            init = ci.members.get("__init__")
            if init is not None and init.op == "func":
                out.append(E_.Entry(ci.name, init.meta[0], lambda J, ci=ci:
                                    E_.class_node(J, ci)))
    return out


def check(ctx, rep):
    rep.rule(RULE, "no store, augmented assignment, in-place method, ufunc "
                   "output or attribute assignment on any path from the "
                   "entry point has a target that may share memory with the "
                   "data argument (alias roots followed through views, "
                   "attributes, joins and shallow containers)")
    I0 = ctx.interp()
    ents = entry_list(ctx, I0)
    rep.count("entry_points", len(ents))
    for e in ents:
        ps, _ = E_.params(e.fi)
        data = [p for p in ps if E_.is_data(e.fi, p)]
        accessor = e.label.split(".")[0].endswith("Accessor")
        if accessor:
            data.append("obj")
        if not data:
            continue
        for which in (0, 1):
            def go(e=e, which=which, data=data):
                one(ctx, rep, e, which, data)
            ctx.guarded(RULE, f"{e.label} variant {which}", go)


def one(ctx, rep, e, which, data):
    I, r, status = E_.drive(ctx, e, which)
    if status == "budget":
        rep.unknown(RULE, f"{e.label} variant {which}", "budget")
        return
    memo = {}
    hits, vague = {}, []
    for ef in I.effects:
        if ef.kind not in ("mutate", "setattr"):
            continue
        b = ef.node
        while b.op in ("update", "mutated", "setattr"):
            b = b.args[0]
        if ef.kind == "setattr" and b.op in lib.WRAPS:
            continue        # metadata of a new object
        rs = lib.roots(ef.node, memo)
        for x in rs:
            if x.kind == "input":
                nm = str(x.node.meta[0]) if isinstance(
                    x.node.meta, tuple) else str(x.node.meta)
                nm = nm.split(":", 1)[-1]
                if ef.how == "aug assignment" and not surely_array(
                        I, ef.node):
                    vague.append((nm, ef))
                    continue
                hits.setdefault(nm, []).append(ef)
            elif x.kind == "unknown":
                vague.append((None, ef))
    _, req = E_.params(e.fi)
    for p in data:
        if not which and p not in req and p != "obj":
            continue
        c = f"{e.label}({p}) {'all arguments' if which else 'defaults'}"
        if p in hits:
            ef = hits[p][0]
            rep.bad(RULE, c, f"{ef.how} on {p}", ef.loc)
        elif any(v[0] in (p, None) for v in vague):
            ef = [v[1] for v in vague if v[0] in (p, None)][0]
            rep.unknown(RULE, c, f"{ef.how} on a value of unknown kind",
                        ef.loc)
        else:
            rep.ok(RULE, c, f"{len(I.effects)} effects")


def surely_array(I, n):
    """An augmented assignment to n writes in place for some input."""
    op = n.op
    if op == "in":
        return True
    if op == "item":
        i = n.args[1]
        parts = i.args if i.op == "tuple" else (i,)
        return any(p.op in ("slice", "ellipsis") or
                   (p.op == "const" and isinstance(p.meta, str)) or
                   p.op == "in" for p in parts) or parts[0].op == "const" \
            and isinstance(p0(parts[0]), (str, type(Ellipsis)))
    if op in lib.VIEW_OPS:
        return True
    if op == "attr":
        return n.meta in lib.DATA_ATTRS
    if op in ("phi",):
        return surely_array(I, n.args[1]) or surely_array(I, n.args[2])
    if op in ("update", "setattr", "mutated"):
        return surely_array(I, n.args[0])
    return False


def p0(n):
    from ..ir import cval
    return cval(n)
