"""C11: the registry maps each registered name to exactly its frame."""
import ast

from ..ctx import walk

from . import entries as E_
from .registry import (FALSE, NONE, TRUE, NAME, Scene, const, exc_path,
                       is_none, new_frames, parent_at, same_node, show, sym)

RULE = "registry"


def untold(e):
    """Does a raise depend on something that has one truth value, but is
    not known here?"""
    return any(not any(x.op in ("in", "vol") for x in walk(c))
               for c, _ in e.pc if c.op != "const")


class Expect:
    def __init__(self, rep, label, s):
        self.rep, self.label, self.s = rep, label, s

    def _j(self, cond, what, detail="", loc=None):
        self.rep.check(cond, RULE, f"{self.label}: {what}", detail, loc)

    def completes(self):
        s = self.s
        rs = [e for e in s.I.raises if not exc_path(e)]
        bad = next((e for e in rs if not untold(e)), None)
        ok = s.completes and bad is None
        self._j(None if ok and rs else ok, "completes",
                f"raises {bad.how}" if bad else "", bad and bad.loc)
        return self

    def raises(self, exc):
        s = self.s
        rs = [e for e in s.I.raises if not exc_path(e)]
        hows = {e.how for e in rs} - {"<reraise>"}
        if s.completes:
            self._j(False, f"raises {exc}", "the call completes")
        else:
            self._j(bool(rs) and hows <= {exc}, f"raises {exc}",
                    f"raises {sorted(hows)}", rs[0].loc if rs else None)
        return self

    def ops(self, *want):
        """want: ('set', key, value) / ('del', key) / ('clear',)"""
        s = self.s
        got = [g for g in s.regops() if not any(
            c.op == "exc" and p for c, p in g[3].pc)]
        txt = ", ".join(f"{k} {show(a) if a is not None else ''}" for
                        k, a, b, e in got) or "none"
        ok = len(got) == len(want)
        loc = got[0][3].loc if got else None
        if any(g[0] == "other" for g in got):
            ok = None
        elif ok:
            for g, w in zip(got, want):
                k = g[0] == w[0]
                if len(w) > 1:
                    k = k and same_node(g[1], w[1])
                if len(w) > 2:
                    v = w[2](s) if callable(w[2]) else w[2]
                    k = k and same_node(s.I.cur(g[2]), s.I.cur(v))
                ok = ok and k
        wtxt = ", ".join(w[0] for w in want) or "none"
        self._j(ok, f"registry changes are [{wtxt}]", f"found {txt}", loc)
        return self

    def tree(self, *want):
        """want: (frame, parent value)"""
        s = self.s
        got = []
        fresh = {f.uid for f in new_frames(s)}
        for e in s.treeops():
            if any(c.op == "exc" and p for c, p in e.pc):
                continue
            if e.node.uid in fresh:
                continue
            got.append(e)
        for e in s.I.effects:
            if e.kind == "setattr" and e.how in (
                    "name", "translation", "rotation", "timestamps",
                    "discrete") and e.node.uid not in fresh:
                self._j(False, "frames keep their names and transforms",
                        f"{show(e.node)}.{e.how} is set", e.loc)
        ok = len(got) == len(want)
        if ok:
            for e, (fr, par) in zip(got, want):
                f = fr(s) if callable(fr) else fr
                ok = ok and e.how == "parent" and same_node(e.node, f) and \
                    same_node(e.args[0], par)
        self._j(ok, f"{len(want)} changes to existing tree nodes",
                "found " + (", ".join(f"{show(e.node)}.{e.how}"
                                      for e in got) or "none"),
                got[0].loc if got else None)
        return self

    def holds(self, cond, what, detail="", loc=None):
        self._j(cond, what, detail, loc)
        return self


def old(key):
    return lambda s: s.I.getitem(s.reg, key)


def newf(s):
    f = new_frames(s)
    return f[0] if len(f) == 1 else NONE


def check(ctx, rep):
    rep.rule(RULE, "under the assumed registry contents the abstract run has "
                   "exactly the specified writes to the registry (key and "
                   "value), the specified changes to the tree and the "
                   "specified outcome")

    def scene(label, fn):
        def go():
            s = Scene(ctx)
            fn(s, Expect(rep, label, s))
        ctx.guarded(RULE, label, go)

    def pub(s, nm):
        return ctx.public(s.I, nm)

    PAR = sym("parent", kind="str", nonnull=True)

    # --- register_frame
    for upd in (False, True):
        for par in (False, True):
            kw = {"update": const(upd)}
            if par:
                kw["parent"] = PAR
            lab = f"register_frame({'child' if par else 'root'}, " \
                  f"update={upd})"

            def absent(s, x, kw=kw, par=par):
                s.has(NAME, False)
                if par:
                    s.has(PAR, True)
                s.call(pub(s, "register_frame"), [NAME], kw)
                x.completes().ops(("set", NAME, newf)).tree()
                f = s.I.cur(newf(s))
                x.holds(same_node(s.I.getattr(f, "name"), NAME),
                        "the frame carries the name")
                p = parent_at(s, f)
                want = s.I.getitem(s.reg, PAR) if par else NONE
                x.holds(same_node(p, want) or
                        (par and p.k == N_k(s, PAR)),
                        "the frame is attached to its parent",
                        f"parent {show(p)}")
            scene(lab + " new name", absent)

            def present(s, x, kw=kw, par=par, upd=upd):
                s.has(NAME, True)
                if par:
                    s.has(PAR, True)
                s.call(pub(s, "register_frame"), [NAME], kw)
                if upd:
                    # the new frame is not the registered one
                    x.completes().ops(("set", NAME, newf))
                    x.tree((old(NAME), NONE))
                else:
                    x.raises("ValueError").ops().tree()
            scene(lab + " taken name", present)

    def noname(s, x):
        s.call(pub(s, "register_frame"), [NONE], {})
        x.raises("ValueError").ops().tree()
    scene("register_frame(None)", noname)

    # --- ReferenceFrame.register
    def self_frame(s):
        fr = ctx.frame("self")
        nm = s.I.getattr(fr, "name")
        s.fact(s.I.isnone(nm), False)
        s.fact(s.I.truth(nm), True)
        return fr, nm

    for upd in (False, True):
        def m_absent(s, x, upd=upd):
            fr, nm = self_frame(s)
            s.has(nm, False)
            s.call(s.I.getattr(fr, "register"), [], {"update": const(upd)})
            x.completes().ops(("set", nm, fr)).tree()
        scene(f"register(update={upd}) new name", m_absent)

        def m_other(s, x, upd=upd):
            fr, nm = self_frame(s)
            s.has(nm, True)
            s.same(nm, fr, False)
            s.call(s.I.getattr(fr, "register"), [], {"update": const(upd)})
            if upd:
                x.completes().ops(("set", nm, fr)).tree((old(nm), NONE))
            else:
                x.raises("ValueError").ops().tree()
        scene(f"register(update={upd}) name taken by another frame", m_other)

    def m_same(s, x):
        fr, nm = self_frame(s)
        s.has(nm, True)
        s.same(nm, fr, True)
        s.call(s.I.getattr(fr, "register"), [], {"update": TRUE})
        x.completes().tree()
        ops = s.regops()
        x.holds(all(o[0] == "set" and same_node(o[1], nm) and
                    (same_node(o[2], fr) or same_node(
                        o[2], s.I.getitem(s.reg, nm))) for o in ops),
                "the name still maps to the frame",
                str([o[0] for o in ops]), ops[0][3].loc if ops else None)
    scene("register(update=True) same frame", m_same)

    def m_none(s, x):
        fr = ctx.frame("self")
        nm = s.I.getattr(fr, "name")
        s.fact(s.I.isnone(nm), True)
        s.fact(s.I.truth(nm), False)
        s.call(s.I.getattr(fr, "register"), [], {})
        x.raises("ValueError").ops().tree()
    scene("register() unnamed", m_none)

    # --- deregister
    def d_in(s, x):
        s.has(NAME, True)
        s.call(pub(s, "deregister_frame"), [NAME], {})
        x.completes().ops(("del", NAME)).tree()
    scene("deregister_frame(registered)", d_in)

    def d_out(s, x):
        s.has(NAME, False)
        s.call(pub(s, "deregister_frame"), [NAME], {})
        x.raises("ValueError").ops().tree()
    scene("deregister_frame(unknown)", d_out)

    def md(pol_in, pol_same):
        def f(s, x):
            fr, nm = self_frame(s)
            s.has(nm, pol_in)
            if pol_in:
                s.same(nm, fr, pol_same)
            s.call(s.I.getattr(fr, "deregister"), [], {})
            if pol_in and pol_same:
                x.completes().ops(("del", nm)).tree()
            else:
                x.raises("ValueError").ops().tree()
        return f
    scene("deregister() own name", md(True, True))
    scene("deregister() name of another frame", md(True, False))
    scene("deregister() unknown name", md(False, False))

    def dl(pol_in, pol_same):
        def f(s, x):
            fr, nm = self_frame(s)
            s.has(nm, pol_in)
            if pol_in:
                s.same(nm, fr, pol_same)
            s.call(s.I.getattr(fr, "__del__"), [], {})
            if pol_in and pol_same:
                x.completes().tree()
            else:
                x.completes().ops().tree()
        return f
    if ctx.C.members.get("__del__") is not None:
        scene("__del__ registered", dl(True, True))
        scene("__del__ name reused by another frame", dl(True, False))
        scene("__del__ not registered", dl(False, False))

    def clr(s, x):
        s.call(pub(s, "clear_registry"), [], {})
        x.completes().ops(("clear",)).tree()
    scene("clear_registry()", clr)

    # --- construction never registers
    def cons(s, x):
        s.call(pub(s, "ReferenceFrame"), [NAME], {"parent": PAR})
        x.ops()
    scene("ReferenceFrame(name, parent)", cons)

    # --- resolution
    def res_in(s, x):
        s.has(NAME, True)
        s.call(ctx.at(s.I, "core", "_resolve_rf"), [NAME], {})
        r = s.result
        x.completes().ops().tree()
        x.holds(r is not None and same_node(
            r, s.I.getitem(s.reg, NAME)), "a name resolves to its frame",
            f"result {show(r) if r is not None else None}",
            getattr(r, "loc", None))
    scene("_resolve_rf(name)", res_in)

    def res_frame(s, x):
        fr = ctx.frame("self")
        s.call(ctx.at(s.I, "core", "_resolve_rf"), [fr], {})
        x.completes().ops().tree()
        x.holds(s.result is not None and same_node(s.result, fr),
                "a frame resolves to itself")
    scene("_resolve_rf(frame)", res_frame)

    def res_other(s, x):
        s.call(ctx.at(s.I, "core", "_resolve_rf"), [const(3)], {})
        x.raises("TypeError").ops().tree()
    scene("_resolve_rf(3)", res_other)

    def res_unknown(s, x):
        s.has(NAME, False)
        s.call(ctx.at(s.I, "core", "_resolve_rf"), [NAME], {})
        hows = {e.how for e in s.I.raises}
        r = s.result
        if s.completes and r is not None:
            # something is found although the name is not registered
            other = [k for k in walk(r) if k.op in ("item", "m:get") and
                     s.is_reg(k.args[0]) and k.args[1].k != NAME.k]
            x.holds(False if other else None, "an unknown name has no frame",
                    f"{show(r, 4)} is returned", r.loc)
        x.holds(hows == {"ValueError"} if hows else False,
                "an unknown name raises ValueError", f"raises {hows}",
                s.I.raises[0].loc if s.I.raises else None)
    scene("_resolve_rf(unknown name)", res_unknown)

    # --- one registry object
    def alias(s, x):
        pk = s.I.st.envs["mod:rigid_body_motion"].get("registry")
        x.holds(pk is not None and pk.uid == s.reg.uid,
                "the exported registry is the registry in use")
        n = 0
        for fi in ctx.p.funcs.values():
            for g in ast.walk(fi.node):
                if isinstance(g, ast.Global):
                    for nm in g.names:
                        b = s.I.st.envs.get(
                            "mod:" + fi.module.name, {}).get(nm)
                        if b is not None and b.uid == s.reg.uid and any(
                                isinstance(y, ast.Name) and y.id == nm and
                                isinstance(y.ctx, ast.Store)
                                for y in ast.walk(fi.node)):
                            n += 1
                            x.holds(False, "the registry is never replaced",
                                    f"{fi.qualname} rebinds {nm}")
        if not n:
            x.holds(True, "the registry is never replaced",
                    f"{len(ctx.p.funcs)} functions")
    scene("registry object", alias)

    # --- only the registration functions write to it
    writers = {"register_frame", "deregister_frame", "clear_registry",
               "ReferenceFrame.register", "ReferenceFrame.deregister"}
    I0 = ctx.interp()
    ents = E_.functions(ctx, I0) + E_.methods(
        ctx, I0, ctx.C, lambda J: ctx.frame("self"))
    for e in ents:
        if e.label in writers:
            continue

        def q(e=e):
            s = Scene(ctx)
            I, r, st = E_.drive(ctx, e, 1, I=s.I)
            ops = s.regops()
            rep.check(None if st == "budget" and not ops else not ops, RULE,
                      f"{e.label}: leaves the registry alone",
                      ops[0][3].how if ops else "",
                      ops[0][3].loc if ops else None)
        ctx.guarded(RULE, f"{e.label}: leaves the registry alone", q)


def N_k(s, par):
    return s.I.getitem(s.reg, par).k
