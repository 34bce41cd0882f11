"""C12: a rejected operation leaves the registry and the tree as they were."""
from ..ctx import FALSE, NONE, TRUE, Dead, const, is_none, show, sym
from . import entries as E_
from .registry import NAME, Scene, compatible, exc_path, new_frames, same_node

RULE = "rollback"
ATTRS = ("translation", "rotation", "timestamps", "discrete", "name",
         "parent", "children")


def check(ctx, rep):
    rep.rule(RULE, "in the abstract state of every raise that leaves the "
                   "operation, no registry write precedes it on that path, "
                   "frames created by the operation have no parent and "
                   "existing frames have the attributes they had")
    P = sym("parent", nonnull=True)
    full = dict(parent=P, translation=sym("t"), rotation=sym("r"),
                timestamps=sym("ts"), inverse=sym("inv"),
                discrete=sym("discrete"))

    def pub(s, nm):
        return ctx.public(s.I, nm)

    def root(s, nm):
        return pub(s, nm), [NAME], dict(translation=sym("t"),
                                        rotation=sym("r"),
                                        timestamps=sym("ts"),
                                        discrete=sym("discrete"))

    cases = [
        ("register_frame(child)", lambda s: (
            pub(s, "register_frame"), [NAME], full)),
        ("register_frame(child, update=True)", lambda s: (
            pub(s, "register_frame"), [NAME], dict(full, update=TRUE))),
        ("register_frame(child, update=False)", lambda s: (
            pub(s, "register_frame"), [NAME], dict(full, update=FALSE))),
        ("register_frame(root)", lambda s: root(s, "register_frame")),
        ("register_frame(unnamed child)", lambda s: (
            pub(s, "register_frame"), [NONE], full)),
        ("ReferenceFrame(child)", lambda s: (
            pub(s, "ReferenceFrame"), [NAME], full)),
        ("ReferenceFrame(root)", lambda s: root(s, "ReferenceFrame")),
        ("deregister_frame", lambda s: (
            pub(s, "deregister_frame"), [sym("name")], {})),
    ]

    def meth(nm, kw):
        def f(s):
            return s.I.getattr(ctx.frame("self"), nm), [], kw
        return f
    cases += [
        ("register()", meth("register", {})),
        ("register(update=True)", meth("register", {"update": TRUE})),
        ("deregister()", meth("deregister", {})),
    ]
    I0 = ctx.interp()
    for e in E_.methods(ctx, I0, ctx.C, lambda J: ctx.frame("self")):
        if e.fi.name.startswith("from_"):
            cases.append((e.label, lambda s, e=e: (
                e.get(s.I), [], E_.arguments(e.fi, 1))))
    for lab, mk in cases:
        def go(lab=lab, mk=mk):
            s = Scene(ctx)
            f, a, kw = mk(s)
            s.call(f, a, kw)
            judge(rep, lab, s)
        ctx.guarded(RULE, lab, go)


def judge(rep, lab, s):
    n = 0
    for e in s.I.raises:
        st, upto = e.extra
        n += 1
        c = f"{lab}: {e.how} in {e.loc.func if e.loc else '?'} #{n}"
        # an exception of a library call may come before any of them
        ops = [] if exc_path(e) else s.regops(upto, e.pc, st)
        # removing what the path itself stored is a roll-back
        sets = [o for o in ops if o[0] == "set"]
        dels = [o for o in ops if o[0] == "del"]
        if len(sets) == len(dels) == len(ops) / 2 and ops and all(
                same_node(a[1], b[1]) for a, b in zip(sets, dels)):
            ops = []
        if ops:
            rep.bad(RULE, c, f"the registry was changed before the "
                    f"exception ({ops[0][3].how} at {ops[0][3].loc})", e.loc)
            continue
        msg = dirty(s, e, st, upto)
        rep.check(not msg, RULE, c, msg or "state unchanged", e.loc)
    rep.count("raise_sites", n)
    if not n:
        rep.ok(RULE, f"{lab}: no raise", "")


def dirty(s, e, st, upto):
    """Description of a change visible at the raise, or None."""
    I = s.I
    fresh = {f.uid: f for f in new_frames(s)}
    seen = set()
    for ef in I.effects[:upto]:
        if ef.kind != "setattr" or not compatible(ef.pc, e.pc):
            continue
        key = (ef.node.uid, ef.how)
        if key in seen:
            continue
        if s.excluded(ef, st):
            continue
        seen.add(key)
        saved = I.st
        I.st = st
        try:
            if ef.node.uid in fresh:
                if ef.how != "parent":
                    continue
                v = I.cur(I.getattr(I.cur(fresh[ef.node.uid]), "parent"))
                if not is_none(v) and not detached(I, v):
                    return f"the new frame stays attached to {show(v)}"
            elif ef.how in ATTRS:
                orig = I.orig.get(ef.node.uid, ef.node)
                while orig.op in ("setattr", "update", "mutated"):
                    orig = orig.args[0]
                now = I.cur(I.getattr(I.cur(ef.node), ef.how))
                if now.op == "attr" and now.meta == ef.how and \
                        now.args[0].uid == orig.uid:
                    continue
                if now.k == I.getattr(orig, ef.how, True).k:
                    continue
                return (f"{show(orig)}.{ef.how} was set to {show(now)} "
                        f"at {ef.loc}")
        except Dead:
            pass
        finally:
            I.st = saved
    return None


def detached(I, v):
    """None on every alternative."""
    if v.op == "phi":
        return all(is_none(x) or detached(I, x) for x in v.args[1:])
    return is_none(v)
