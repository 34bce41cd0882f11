"""Abstract interpreter that builds the value-flow graph.

Interprocedural (calls into the package are analysed in the caller's
context), flow-sensitive, with joins (phi nodes gated by the branch condition)
at control-flow merges, a fixpoint over loop-carried values and effect
recording.  Conditions are pruned only when they are decided by constants, by
dominating tests or by the stated input configuration.
"""
import ast
import builtins as _bi

from . import lib
from .ir import (FALSE, NONE, TRUE, N, const, cval, is_const, is_none, show)
from .program import PKG, AnalysisError, ClassInfo, FuncInfo, _assigned_names

MAX_STEPS = 400000
MAX_DEPTH = 40

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update",
            "setdefault", "sort", "reverse", "fill", "add", "discard", "put",
            "setflags", "itemset", "partition", "resize", "popitem",
            "__setitem__", "__delitem__", "setfield", "byteswap_inplace",
            "appendleft", "popleft"}


class Dead(Exception):
    """No live state: the analysed path ended in an exception."""


class Budget(Exception):
    pass


class Loc:
    __slots__ = ("file", "line", "func")

    def __init__(self, file, line, func):
        self.file, self.line, self.func = file, line, func

    def __repr__(self):
        return f"{self.file}:{self.line} ({self.func})"


class Effect:
    def __init__(self, kind, node, how, loc, stack, pc, args=(), extra=None):
        self.kind = kind
        self.node = node
        self.how = how
        self.loc = loc
        self.stack = stack
        self.pc = pc
        self.args = args
        self.extra = extra

    def __repr__(self):
        return f"<{self.kind} {self.how} {show(self.node) if isinstance(self.node, N) else self.node} @ {self.loc}>"


class State:
    __slots__ = ("envs", "upd", "facts", "eq", "pc")

    def __init__(self):
        self.envs = {}
        self.upd = {}
        self.facts = {}
        self.eq = {}
        self.pc = ()

    def copy(self):
        s = State()
        s.envs = {f: (e if isinstance(f, str) else dict(e))
                  for f, e in self.envs.items()}
        s.upd = dict(self.upd)
        s.facts = dict(self.facts)
        s.eq = dict(self.eq)
        s.pc = self.pc
        return s


class Frame:
    _n = 0

    def __init__(self, fi, module, closure=(), cls=None):
        Frame._n += 1
        self.fid = Frame._n
        self.fi = fi
        self.module = module
        self.closure = closure      # tuple of enclosing fids
        self.cls = cls
        self.returns = []
        self.globals = set()
        self.nonlocals = set()
        self.yields = None
        self.loops = []


UNBOUND = N("unbound")


def sym(name, **facets):
    return N("in", (), (name, tuple(sorted(facets.items(), key=lambda x: x[0]))))


def facets(n):
    return dict(n.meta[1]) if n.op == "in" else {}


class Interp:
    def __init__(self, program, decider=None, import_ok=True):
        self.p = program
        self.decider = decider
        self.import_ok = import_ok
        self.st = State()
        self.effects = []
        self.calls = []
        self.raises = []
        self.unknowns = []
        self.stack = []
        self.frames = []
        self.try_stack = []
        self.handling = []
        self.orig = {}
        self.steps = 0
        self.active_iters = {}
        # loop variables that do not stay arrays
        self.loose = set()
        self.modstate = {}
        self.mayraise = set()
        self.loc = None
        self.classes = {}     # qualname -> class N
        self.funcsN = {}
        self.funcs_entered = set()
        self.call_sites = set()
        self.mutable_defaults = {}
        self.expr_loc_depth = 0
        self.keep_states = False
        self.method_hooks = {}      # method name -> callable(I, args, kwargs)
        self.either = {}            # list that is one of two others: by uid
        self.extern_hooks = {}      # library name -> callable
        self.overrides = {}   # qualname -> python callable(interp,args,kwargs)
        self.breaks = []        # path conditions of break statements
        self.volatile = set()   # attributes other threads write
        self.nvol = 0
        self.looplog = []       # passes over loops, see gen_loop

    # ------------------------------------------------------------ modules
    def load_module(self, name):
        if name in self.modstate:
            return
        m = self.p.modules[name]
        self.modstate[name] = "loading"
        # parent package first (as the import system does)
        fr = Frame(FuncInfo(name + ".<module>", m.tree, m), m)
        fr.fid = "mod:" + name
        fr.is_module = True
        self.st.envs[fr.fid] = {"__name__": const(name)}
        saved = (self.frames, self.try_stack, self.st.pc)
        self.frames = [fr]
        self.try_stack = []
        try:
            self.exec_block(m.tree.body)
        except Dead:
            pass
        self.frames, self.try_stack, _ = saved
        self.modstate[name] = "done"

    def load_all(self):
        for n in sorted(self.p.modules):
            if "check_install" in n:
                continue
            self.load_module(n)
        self._symbolise_globals()
        self.load_calls = self.calls
        self.effects, self.calls, self.raises, self.unknowns = [], [], [], []
        self.funcs_entered, self.call_sites = set(), set()
        self.steps = 0
        self.st.pc = ()
        self.st.facts = {}

    def snapshot(self):
        return self.st.copy()

    def _symbolise_globals(self):
        """Module-level containers mutated by any function are unknown at
        analysis entry."""
        mutated = set()
        for fi in self.p.funcs.values():
            if not hasattr(fi, "_mut_scan"):
                fi._mut_scan = (
                    _assigned_names(fi.node) | {
                        a.arg for a in ast.walk(fi.node.args)
                        if isinstance(a, ast.arg)},
                    [x for x in ast.walk(fi.node) if isinstance(
                        x, (ast.ImportFrom, ast.Assign, ast.AugAssign,
                            ast.Delete, ast.Global)) or
                     isinstance(x, ast.Call) and isinstance(
                         x.func, ast.Attribute) and
                     x.func.attr in MUTATORS])
            loc, nodes = fi._mut_scan
            env = self.st.envs.get("mod:" + fi.module.name, {})

            def base(e):
                while isinstance(e, (ast.Subscript, ast.Attribute)):
                    e = e.value
                if isinstance(e, ast.Name) and e.id not in loc:
                    n = env.get(e.id)
                    if n is None:
                        n = imported(e.id)
                    return n
                if isinstance(e, ast.Name) and e.id in loc:
                    return imported(e.id)
                return None

            imps = {}
            for x in nodes:
                if isinstance(x, ast.ImportFrom):
                    mod = self._resolve_from(fi.module, x)
                    for a in x.names:
                        e2 = self.st.envs.get("mod:" + mod, {})
                        if a.name in e2:
                            imps[a.asname or a.name] = e2[a.name]

            def imported(nm):
                return imps.get(nm)

            for x in nodes:
                t = []
                if isinstance(x, ast.Assign):
                    t = [y for y in x.targets
                         if isinstance(y, (ast.Subscript, ast.Attribute))]
                elif isinstance(x, ast.AugAssign):
                    t = [x.target]
                elif isinstance(x, ast.Delete):
                    t = x.targets
                elif isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and x.func.attr in MUTATORS:
                    t = [x.func.value]
                elif isinstance(x, ast.Global):
                    for g in x.names:
                        if g in env:
                            mutated.add(env[g].uid)
                for y in t:
                    b = base(y)
                    if b is not None and isinstance(b, N):
                        mutated.add(b.uid)
        for fid, env in self.st.envs.items():
            if not isinstance(fid, str):
                continue
            for nm, n in list(env.items()):
                if n.uid in mutated and n.op in ("dict", "list", "set",
                                                 "const") or (
                        n.uid in mutated and n.op.startswith(
                            ("builtins.", "collections.", "weakref."))):
                    kind = {"dict": "dict", "list": "list", "set": "set"}.get(
                        n.op, "any")
                    s = N("in", (), ("global:" + nm,
                                     (("glob", True), ("kind", kind),
                                      ("nonnull", n.op != "const"))),
                          uid=n.uid)
                    env[nm] = s
                    self.st.upd.pop(n.uid, None)

    def _resolve_from(self, module, node):
        mod = node.module or ""
        if node.level:
            parts = module.name.split(".")
            if not module.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (node.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        return mod

    # ------------------------------------------------------------ helpers
    def here(self, node):
        fr = self.frames[-1] if self.frames else None
        if fr is None:
            return None
        return Loc(fr.module.path, getattr(node, "lineno", 0),
                   fr.fi.qualname[len(PKG) + 1:])

    def tick(self):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Budget("analysis budget exhausted")

    def unknown(self, why, node=None):
        n = N("unknown", (), why, loc=self.loc)
        self.unknowns.append((why, self.loc))
        return n

    def env(self):
        return self.st.envs[self.frames[-1].fid]

    def mk(self, op, args=(), meta=None, uid=None):
        self.tick()
        return N(op, args, meta, uid=uid, loc=self.loc)

    def effect(self, kind, node, how, args=(), extra=None):
        e = Effect(kind, node, how, self.loc, tuple(self.stack), self.st.pc,
                   args, extra)
        self.effects.append(e)
        return e

    # ----------------------------------------------------- current values
    def kid(self, phi, i):
        """Operand i of a join; alternatives that are contents of the same
        object (same uid) are taken as they are."""
        x = phi.args[i]
        return self.cur(x, x.uid if x.uid == phi.uid else None)

    def cur(self, n, raw_uid=None):
        st = self.st
        raw = raw_uid
        for _ in range(200):
            u = st.upd.get(n.uid) if n.uid != raw else None
            if u is not None and u is not n:
                n = u
            if n.op == "phi":
                f = self.decide(n.args[0])
                if f is not None:
                    m = n.args[1] if f else n.args[2]
                    if m.uid == n.uid:
                        raw = m.uid
                    n = m
                    continue
            if n.op not in ("const", "tuple", "list", "dict", "func",
                            "inst", "class", "extern", "module"):
                e = st.eq.get(n.k)
                if e is not None:
                    return e
            return n
        return n

    # ------------------------------------------------------------ typing
    def tyof(self, n):
        """Facets (kind, nonnull, cls) the analysis knows for a value."""
        op = n.op
        if op == "in":
            return dict(n.meta[1])
        if op == "inst":
            return {"cls": n.meta[0], "nonnull": True}
        if op == "attr":
            b = self.tyof(n.args[0])
            c = b.get("cls")
            if c is not None and c.name == "ReferenceFrame" and n.meta in (
                    "parent", "root"):
                return {"cls": c, "nonnull": n.meta == "root"}
            if n.meta in ("shape", "ndim", "dtype", "dims", "coords",
                          "__name__", "size"):
                return {"nonnull": True}
            return {}
        if op == "elem":
            s = n.args[0]
            t = self.tyof(s)
            if t.get("elems") == "frame":
                return {"cls": self.frame_cls(), "nonnull": True}
            return {}
        if op == "item":
            b = n.args[0]
            if b.op == "in" and b.meta[0].startswith("global:_registry"):
                return {"cls": self.frame_cls(), "nonnull": True}
            t = self.tyof(b)
            if t.get("walk"):
                if is_const(n.args[1], 1):
                    return {"cls": self.frame_cls(), "nonnull": True}
                return {"elems": "frame", "nonnull": True}
            return {}
        if op == "m:walk":
            return {"walk": True, "nonnull": True}
        if op in ("anytree.PreOrderIter", "anytree.LevelOrderIter"):
            return {"elems": "frame", "nonnull": True}
        if op == "phi":
            a, b = self.tyof(n.args[1]), self.tyof(n.args[2])
            return {k: a[k] for k in a if k in b and b[k] is a[k]}
        if op in ("setattr", "update"):
            return self.tyof(n.args[0])
        if op == "loop" or op == "mu":
            return {}
        if op in ("const", "unknown", "unbound", "apply"):
            return {}
        if op.startswith("numpy.") or op == "pathlib.Path" or op in (
                "binop", "unop", "fstr", "cmp",
                                             "tuple", "list", "dict"):
            return {"nonnull": True}
        return {}

    def frame_cls(self):
        return self.p.classes.get(f"{PKG}.reference_frames.ReferenceFrame") or \
            next((c for q, c in self.p.classes.items()
                  if c.name == "ReferenceFrame"), None)

    # -------------------------------------------------------- conditions
    def neg(self, c):
        if c.op == "const":
            return FALSE if cval(c) else TRUE
        if c.op == "not":
            return c.args[0]
        if c.op == "phi":
            return self.mkphi(c.args[0], self.neg(self.truth(c.args[1])),
                              self.neg(self.truth(c.args[2])))
        return N("not", (c,), loc=c.loc)

    def truth(self, n):
        """Boolean condition node for the truth value of n."""
        if n.op in ("isnone", "cmp", "not", "isinst", "hasattr", "truth",
                    "exc", "in_", "inloop", "importok", "brk"):
            return n
        if n.op == "const":
            return TRUE if cval(n) else FALSE
        if n.op in ("tuple", "list", "dict", "set"):
            if not n.args:
                return FALSE
            if n.op in ("tuple",) or any(
                    not (isinstance(a, N) and a.op in
                         ("mapseg", "condseg", "museg")) for a in n.args):
                return TRUE
            return N("truth", (n,), loc=n.loc)
        if n.op in ("func", "class", "extern", "module", "bound"):
            return TRUE
        if n.op == "phi":
            a, b = self.truth(n.args[1]), self.truth(n.args[2])
            return self.mkphi(n.args[0], a, b)
        if n.op == "unop" and n.meta == "not":
            return self.neg(self.truth(n.args[0]))
        t = self.tyof(n)
        if t.get("cls") is not None:
            if t.get("nonnull"):
                return TRUE
            return self.neg(self.isnone(n))
        return N("truth", (n,), loc=n.loc)

    def numeric(self, n):
        while n.op in ("item", "m:astype", "m:copy", "numpy.asarray") and \
                n.args:
            n = n.args[0]
        if n.op == "phi":
            return self.numeric(n.args[1]) and self.numeric(n.args[2])
        return self.tyof(n).get("kind") == "ndarray" or (
            n.op == "attr" and n.meta in ("timestamps", "translation",
                                          "rotation"))

    def isnone(self, n):
        if n.op == "const":
            return TRUE if cval(n) is None else FALSE
        if n.op in ("tuple", "list", "dict", "set", "func", "class", "extern",
                    "module", "bound", "inst", "binop", "unop", "cmp", "fstr",
                    "ntuple", "mapseg", "index_of", "partial", "isnone"):
            return FALSE
        if n.op == "phi":
            return self.mkphi(n.args[0], self.isnone(n.args[1]),
                              self.isnone(n.args[2]))
        if n.op == "setattr" or n.op == "update":
            return FALSE
        t = self.tyof(n)
        if t.get("nonnull"):
            return FALSE
        if t.get("none"):
            return TRUE
        if n.op == "item" and n.args[1].op == "const" and isinstance(
                cval(n.args[1]), int) and self.numeric(n.args[0]):
            return FALSE        # elements of numeric arrays
        if n.op == "item":
            i = n.args[1]
            if any(x.op in ("slice", "ellipsis", "cmp") or lib.gathers(x)
                   for x in (i.args if i.op == "tuple" else (i,))):
                return FALSE
        elif n.op.startswith(("numpy.", "quaternion.", "scipy.", "builtins.",
                              "xarray.", "pandas.", "m:astype", "m:copy")):
            if n.op not in ("builtins.getattr", "builtins.next",
                            "builtins.max", "builtins.min") or (
                    n.op in ("builtins.max", "builtins.min") and
                    "default" not in (n.meta or ())):
                return FALSE
        return N("isnone", (n,), loc=n.loc)

    def mkphi(self, c, a, b):
        if c.op == "const":
            return a if cval(c) else b
        if a.k == b.k and (a.uid == b.uid or a.op in ("const", "isnone", "cmp",
                                                      "truth", "not", "extern",
                                                      "func", "class", "in")):
            return a
        if c.op == "not":
            return self.mkphi(c.args[0], b, a)
        if is_const(a, True) and is_const(b, False):
            return c
        if is_const(a, False) and is_const(b, True):
            return self.neg(c)
        if a.op == "phi" and a.args[0].k == c.k:
            a = a.args[1]
        if b.op == "phi" and b.args[0].k == c.k:
            b = b.args[2]
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args) \
                and not any(x.op in ("star",) for x in a.args + b.args):
            return N("tuple", [self.mkphi(c, x, y)
                               for x, y in zip(a.args, b.args)], loc=a.loc)
        if a.op == "ntuple" and b.op == "ntuple" and a.meta == b.meta:
            return N("ntuple", [self.mkphi(c, x, y)
                                for x, y in zip(a.args, b.args)], a.meta,
                     loc=a.loc)
        if a.op == "list" and b.op == "list":
            m = self._merge_lists(c, a, b)
            if m is not None:
                return m
        return N("phi", (c, a, b), loc=self.loc)

    def _merge_lists(self, c, a, b):
        i = 0
        while i < len(a.args) and i < len(b.args) and \
                a.args[i].k == b.args[i].k:
            i += 1
        pre, ra, rb = a.args[:i], a.args[i:], b.args[i:]
        segop = ("mapseg", "condseg", "museg")
        uid = a.uid if a.uid == b.uid else None
        if len(ra) == len(rb) and not any(x.op in segop for x in ra + rb):
            r = N("list", pre + tuple(self.mkphi(c, x, y)
                                      for x, y in zip(ra, rb)),
                  uid=uid, loc=a.loc)
            if uid is None:
                self.either[r.uid] = (c, a, b)
            return r
        if uid is None:
            return None
        out = list(pre)
        for x in ra:
            out.append(self._guardseg(c, x))
        nc = self.neg(c)
        for x in rb:
            out.append(self._guardseg(nc, x))
        if any(x is None for x in out):
            return None
        return N("list", out, uid=uid, loc=a.loc)

    def _guardseg(self, c, x):
        if x.op == "museg":
            return None
        if x.op == "mapseg":
            return N("mapseg", (x.args[0], x.args[1],
                                self.andc(c, x.args[2])), loc=x.loc)
        if x.op == "condseg":
            return N("condseg", (self.andc(c, x.args[0]), x.args[1]),
                     loc=x.loc)
        return N("condseg", (c, x), loc=x.loc)

    def andc(self, a, b):
        if a.op == "const":
            return b if cval(a) else FALSE
        if b.op == "const":
            return a if cval(b) else FALSE
        return self.mkphi(a, b, FALSE)

    def decide(self, c):
        """True / False / None."""
        if c.op == "const":
            return bool(cval(c))
        if c.op == "not":
            d = self.decide(c.args[0])
            return None if d is None else not d
        f = self.st.facts.get(c.k)
        if f is not None:
            return f
        if c.op == "phi":
            d = self.decide(c.args[0])
            if d is True:
                return self.decide(self.truth(c.args[1]))
            if d is False:
                return self.decide(self.truth(c.args[2]))
            a = self.decide(self.truth(c.args[1]))
            b = self.decide(self.truth(c.args[2]))
            return a if a is not None and a == b else None
        if c.op == "isnone":
            r = self.isnone(self.cur(c.args[0]))
            if r.op == "const":
                return bool(cval(r))
            if r.k != c.k:
                f = self.st.facts.get(r.k)
                if f is not None:
                    return f
                if r.op == "phi":
                    return self.decide(r)
        if c.op == "cmp" and c.meta in ("==", "is"):
            a, b = c.args
            if b.op == "const" and a.op != "const":
                e = self.st.eq.get(a.k)
                if e is not None:
                    return is_const(e, cval(b))
        if self.decider is not None:
            d = self.decider(c, self)
            if d is not None:
                return d
        if c.op == "importok":
            return self.import_ok
        return None

    def assume(self, c, pol):
        st = self.st
        if c.op == "not":
            return self.assume(c.args[0], not pol)
        if c.op == "const":
            return
        st.pc = st.pc + ((c, pol),)
        self._fact(c, pol)

    def _fact(self, c, pol):
        st = self.st
        if c.op == "not":
            return self._fact(c.args[0], not pol)
        if c.op == "const":
            return
        st.facts[c.k] = pol
        if c.op == "phi":
            g, a, b = c.args
            if pol:
                if is_const(b, False):
                    self._fact(g, True)
                    self._fact(self.truth(a), True)
                elif is_const(a, False):
                    self._fact(g, False)
                    self._fact(self.truth(b), True)
            else:
                if is_const(a, True):
                    self._fact(g, False)
                    self._fact(self.truth(b), False)
                elif is_const(b, True):
                    self._fact(g, True)
                    self._fact(self.truth(a), False)
        elif c.op == "isnone" and pol:
            st.eq[c.args[0].k] = NONE
        elif c.op == "cmp" and c.meta == "==" and pol:
            a, b = c.args
            if b.op == "const" and a.op != "const":
                st.eq[a.k] = b

    # ------------------------------------------------------------ merging
    def merge2(self, c, s1, s2):
        """Join of two states under gate c (s1 when c holds)."""
        n = State()
        for fid, e1 in s1.envs.items():
            e2 = s2.envs.get(fid)
            if e2 is None or e1 is e2:
                n.envs[fid] = e1
                continue
            d = {}
            for v in list(e1) + [x for x in e2 if x not in e1]:
                a, b = e1.get(v, UNBOUND), e2.get(v, UNBOUND)
                if a is b or (a.uid == b.uid and a.k == b.k):
                    d[v] = a
                elif a.uid == b.uid:
                    # same object, contents handled by upd
                    d[v] = a
                else:
                    d[v] = self.mkphi(c, s1.upd.get(a.uid, a),
                                      s2.upd.get(b.uid, b))
            n.envs[fid] = d
        for fid, e2 in s2.envs.items():
            if fid not in n.envs:
                n.envs[fid] = e2
        for u in list(s1.upd) + [x for x in s2.upd if x not in s1.upd]:
            a = s1.upd.get(u) or self.orig.get(u)
            b = s2.upd.get(u) or self.orig.get(u)
            if a is None or b is None:
                n.upd[u] = a or b
            elif a is b or a.k == b.k and a.op != "inst":
                n.upd[u] = a
            else:
                n.upd[u] = self.merge_contents(c, a, b, u, s1, s2)
        n.facts = {k: v for k, v in s1.facts.items() if s2.facts.get(k) == v}
        n.eq = {k: v for k, v in s1.eq.items()
                if k in s2.eq and s2.eq[k].k == v.k}
        i = 0
        while i < len(s1.pc) and i < len(s2.pc) and \
                s1.pc[i][0].k == s2.pc[i][0].k and s1.pc[i][1] == s2.pc[i][1]:
            i += 1
        n.pc = s1.pc[:i]
        return n

    def merge_contents(self, c, a, b, uid, s1, s2):
        if a.op == "inst" and b.op == "inst":
            fa, fb = dict(a.args), dict(b.args)
            out = {}
            for f in list(fa) + [x for x in fb if x not in fa]:
                x, y = fa.get(f, UNBOUND), fb.get(f, UNBOUND)
                out[f] = x if x is y or x.uid == y.uid else self.mkphi(
                    c, s1.upd.get(x.uid, x), s2.upd.get(y.uid, y))
            return N("inst", tuple(out.items()), a.meta, uid=uid, loc=a.loc)
        if a.op == "list" and b.op == "list":
            m = self._merge_lists(c, a, b)
            if m is not None:
                return N("list", m.args, uid=uid, loc=a.loc)
        if a.op == "dict" and b.op == "dict":
            ka = {k.k: (k, v) for k, v in a.args}
            kb = {k.k: (k, v) for k, v in b.args}
            if set(ka) == set(kb):
                return N("dict", tuple((k, self.mkphi(c, v, kb[q][1]))
                                       for q, (k, v) in ka.items()),
                         uid=uid, loc=a.loc)
        return N("phi", (c, a, b), uid=uid, loc=self.loc)

    def tree_merge(self, outs, i):
        """outs: list of (state, value or None)."""
        if len(outs) == 1:
            return outs[0]
        p0 = outs[0][0].pc
        if i < len(p0):
            c, _ = p0[i]
            if all(i < len(s.pc) and s.pc[i][0].k == c.k for s, _ in outs):
                P = [o for o in outs if o[0].pc[i][1]]
                Q = [o for o in outs if not o[0].pc[i][1]]
                if not P:
                    return self.tree_merge(Q, i + 1)
                if not Q:
                    return self.tree_merge(P, i + 1)
                return self._m2(c, self.tree_merge(P, i + 1),
                                self.tree_merge(Q, i + 1), p0[:i])
            # group by first literal where possible
            grp = [o for o in outs if i < len(o[0].pc)
                   and o[0].pc[i][0].k == c.k]
            rest = [o for o in outs if o not in grp]
            a = self.tree_merge(grp, i)
            cc = TRUE
            pcs = [s.pc[i:] for s, _ in grp]
            cc = FALSE
            for pcx in pcs:
                x = TRUE
                for (q, pol) in reversed(pcx):
                    x = self.andc(q if pol else self.neg(q), x)
                cc = self.mkphi(cc, TRUE, x) if cc.op != "const" else x
            return self._m2(cc, a, self.tree_merge(rest, i), p0[:i])
        # first has no further literal: choose rest by condition of others
        a = outs[0]
        b = self.tree_merge(outs[1:], i)
        cc = TRUE
        for (q, pol) in reversed(outs[1][0].pc[i:]):
            cc = self.andc(q if pol else self.neg(q), cc)
        return self._m2(cc, b, a, p0[:i])

    def _m2(self, c, a, b, pc):
        s = self.merge2(c, a[0], b[0])
        s.pc = pc
        v = None
        if a[1] is not None:
            x, y = a[1], b[1]
            v = x if (x.uid == y.uid) else self.mkphi(
                c, a[0].upd.get(x.uid, x), b[0].upd.get(y.uid, y))
        return (s, v)

    # --------------------------------------------------------- statements
    def exec_block(self, stmts):
        """Run statements; returns True when control reaches the end."""
        for s in stmts:
            try:
                if not self.exec_stmt(s):
                    return False
            except Dead:
                return False
        return True

    def exec_stmt(self, s):
        self.tick()
        self.loc = self.here(s)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown(f"statement {type(s).__name__}")
            return True
        r = m(s)
        return True if r is None else r

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.ev(s.value)
            return
        self.ev(s.value)

    def s_Import(self, s):
        for a in s.names:
            top = a.name.split(".")[0]
            if a.asname:
                self.bind(a.asname, self._import(a.name))
            else:
                self.bind(top, self._import(top))
            self.effect("import", None, a.name)
            self.mayraise.add("ImportError")

    def _import(self, name):
        if name in self.p.modules:
            self.load_module(name)
            return N("module", (), name)
        return N("extern", (), lib.canon_extern(name))

    def s_ImportFrom(self, s):
        mod = self._resolve_from(self.frames[-1].module, s)
        if mod == "__future__":
            return
        self.effect("import", None, mod)
        if mod in self.p.modules:
            self.load_module(mod)
            env = self.st.envs.get("mod:" + mod, {})
            for a in s.names:
                if a.name == "*":
                    for k, v in env.items():
                        self.bind(k, v)
                    continue
                sub = mod + "." + a.name
                if a.name in env:
                    v = env[a.name]
                elif sub in self.p.modules:
                    self.load_module(sub)
                    v = N("module", (), sub)
                else:
                    v = self.unknown(f"import of {a.name} from {mod}")
                self.bind(a.asname or a.name, v)
            self.mayraise.add("ImportError")
        else:
            for a in s.names:
                self.bind(a.asname or a.name,
                          N("extern", (), lib.canon_extern(mod + "." + a.name)))
            self.mayraise.add("ImportError")

    def bind(self, name, v):
        fr = self.frames[-1]
        if name in fr.globals:
            fid = "mod:" + fr.module.name
            e = dict(self.st.envs[fid])
            old = e.get(name)
            e[name] = v
            self.st.envs[fid] = e
            self.effect("global_write", old, name, (v,))
            return
        if name in fr.nonlocals:
            for fid in reversed(fr.closure):
                if name in self.st.envs.get(fid, {}):
                    self.st.envs[fid][name] = v
                    return
        env = self.st.envs[fr.fid]
        if isinstance(fr.fid, str):
            env[name] = v
        else:
            env[name] = v

    def s_Global(self, s):
        self.frames[-1].globals.update(s.names)

    def s_Nonlocal(self, s):
        self.frames[-1].nonlocals.update(s.names)

    def s_FunctionDef(self, s):
        fr = self.frames[-1]
        if isinstance(fr.fid, str):
            q = fr.module.name + "." + s.name
        else:
            q = fr.fi.qualname + ".<locals>." + s.name
        fn = self.make_func(s, q)
        self.bind(s.name, self.decorate(fn, s))

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, q, cls=None):
        fr = self.frames[-1]
        fi = self.p.funcs.get(q)
        if fi is None or fi.node is not node:
            fi = FuncInfo(q, node, fr.module, cls)
        clo = fr.closure + (() if isinstance(fr.fid, str) else (fr.fid,))
        defaults = []
        a = node.args
        for d in a.defaults:
            defaults.append(self.default_value(d, q))
        kwd = []
        for d in a.kw_defaults:
            kwd.append(None if d is None else self.default_value(d, q))
        return N("func", (), (fi, clo, tuple(defaults), tuple(kwd), cls),
                 loc=self.loc)

    def default_value(self, d, q):
        v = self.ev(d)
        if v.op in ("dict", "list", "set"):
            v = N("in", (), ("default:" + q, (("glob", True),
                                              ("kind", v.op),
                                              ("nonnull", True))))
        return v

    def decorate(self, fn, s):
        out = fn
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            if dv.op == "extern" and dv.meta in (
                    "builtins.staticmethod", "builtins.classmethod",
                    "builtins.property", "functools.wraps",
                    "abc.abstractmethod"):
                out = N("deco", (out,), dv.meta.split(".")[-1])
            elif dv.op == "deco_setter":
                continue
            elif dv.op in ("func", "bound", "phi", "partial"):
                out = self.call(dv, [out], {})
            elif dv.op.startswith("functools.wraps"):
                pass
            else:
                name = dv.meta if dv.op == "extern" else dv.op
                out = N("decorated", (out,), str(name))
        return out

    def s_ClassDef(self, s):
        fr = self.frames[-1]
        if isinstance(fr.fid, str):
            q = fr.module.name + "." + s.name
        else:
            q = fr.fi.qualname + ".<locals>." + s.name
        ci = self.p.classes.get(q)
        if ci is None or ci.node is not s:
            ci = ClassInfo(s.name, q, s, fr.module)
        ci = _copy_ci(ci)
        ci.bases = [self.ev(b) for b in s.bases]
        ci.members = {}
        cfr = Frame(FuncInfo(q, s, fr.module), fr.module, fr.closure)
        self.st.envs[cfr.fid] = {}
        # class body executed in its own scope
        self.frames.append(cfr)
        try:
            for b in s.body:
                if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.loc = self.here(b)
                    fn = self.make_func(b, q + "." + b.name, ci)
                    fn = N("func", (), fn.meta[:1] + (
                        fr.closure + (() if isinstance(fr.fid, str)
                                      else (fr.fid,)),) + fn.meta[2:],
                        loc=fn.loc)
                    if any(isinstance(d, ast.Attribute) and d.attr == "setter"
                           for d in b.decorator_list):
                        self.st.envs[cfr.fid]["__set_" + b.name] = fn
                        continue
                    self.st.envs[cfr.fid][b.name] = self.decorate(fn, b)
                else:
                    self.exec_stmt(b)
        finally:
            self.frames.pop()
        ci.members = self.st.envs.pop(cfr.fid)
        cn = N("class", (), ci, loc=self.loc)
        self.p.classes[q] = ci
        for d in s.decorator_list:
            dv = self.ev(d)
        self.classes[q] = cn
        self.bind(s.name, cn)

    def s_Return(self, s):
        v = NONE if s.value is None else self.ev(s.value)
        self.frames[-1].returns.append((self.st, v))
        return False

    def s_Raise(self, s):
        if s.exc is None:
            name, v = self.handling[-1] if self.handling else (
                "<reraise>", NONE)
        else:
            v = self.ev(s.exc)
            name = self.exc_name(v)
        self.do_raise(name, v)

    def exc_name(self, v):
        op = v.op
        if op == "extern":
            return v.meta.split(".")[-1]
        if op.startswith("builtins."):
            return op.split(".")[-1]
        if op == "inst":
            return v.meta[0].name
        if op == "class":
            return v.meta.name
        return op

    def do_raise(self, name, v, implicit=False, loc=None, stack=None):
        for tr in reversed(self.try_stack):
            if "final" in tr:
                tr["final"].append((self.st, v, name, loc or self.loc,
                                    stack or tuple(self.stack)))
                raise Dead()
            for i, h in enumerate(tr["handlers"]):
                if exc_match(name, h):
                    tr["caught"].setdefault(i, []).append((self.st, v, name))
                    raise Dead()
        self.raises.append(Effect(
            "raise", v, name, loc or self.loc, stack or tuple(self.stack),
            self.st.pc,
            extra=(self.st.copy() if self.keep_states else None,
                   len(self.effects))))
        raise Dead()

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        d = self.decide(c)
        if d is None:
            self.assume(c, True)
        if d is False:
            self.do_raise("AssertionError", NONE)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                i = self.ev(t.slice)
                if is_table(b, self.tyof(b)):
                    self.need_key(b, i)
                self.effect("mutate", b, "del item", (i,))
                self.set_content(b, self.mk("delitem", (b, i), uid=b.uid))
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                self.effect("mutate", b, "del attr " + t.attr)
            elif isinstance(t, ast.Name):
                self.env().pop(t.id, None)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        op = OPS[type(s.op)]
        if isinstance(t, ast.Name):
            old = self.ev_name(t.id)
            val = self.ev(s.value)
            if op == "+" and self.cur(old).op == "list":
                lib.method(self, old, "extend", [val], {})
                return
            new = self.binop(op, old, val)
            self._aug(old, new, lambda n: self.bind(t.id, n))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            old = self.getattr(b, t.attr)
            val = self.ev(s.value)
            if op == "+" and self.cur(old).op == "list":
                lib.method(self, old, "extend", [val], {})
                return
            new = self.binop(op, old, val)
            self._aug(old, new, None)
            self.set_attr(b, t.attr, new)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            i = self.ev(t.slice)
            old = self.getitem(b, i)
            new = self.binop(op, old, self.ev(s.value))
            self.set_item(b, i, new, how="aug item")

    def _aug(self, old, new, rebind):
        if old.op in ("const", "tuple", "fstr") or new.op in ("const",):
            if rebind:
                rebind(new)
            return
        if old.op == "list" and new.op == "list":
            upd = N("list", new.args, uid=old.uid, loc=self.loc)
            self.effect("mutate", old, "aug assignment", (new,))
            self.set_content(old, upd)
            return
        if self.scalarish(old):
            if rebind:
                rebind(new)
            return
        # in-place for arrays: the object keeps its identity
        self.effect("mutate", old, "aug assignment", (new,))
        if rebind and (old.op in ("mu", "loop", "phi") or True):
            upd = N(new.op, new.args, new.meta, uid=old.uid, loc=self.loc)
            self.set_content(old, upd)
            self.view_clobber(old)
            rebind(upd)

    def scalarish(self, n):
        """Values known to be immutable (numbers, strings, tuples)."""
        t = self.tyof(n)
        if t.get("kind") in ("int", "float", "str", "bool", "tuple",
                             "scalar"):
            return True
        if n.op in ("const", "fstr", "tuple", "builtins.len", "builtins.int",
                    "builtins.float", "builtins.str"):
            return True
        if n.op == "attr" and n.meta in ("ndim", "shape", "size", "dims"):
            return True
        if n.op in ("binop", "unop"):
            return all(self.scalarish(a) for a in n.args)
        if n.op in ("mu",):
            return self.scalarish(n.args[0])
        if n.op == "loop":
            return self.scalarish(n.args[1])
        if n.op == "phi":
            return self.scalarish(n.args[1]) and self.scalarish(n.args[2])
        return False

    def view_clobber(self, n):
        """A write through a view: the viewed object changes too."""
        for b in lib.view_bases(n):
            if b.uid == n.uid:
                continue
            b0 = self.cur(b)
            self.effect("mutate", b0, "through view", (n,))
            self._raw_upd(b, N("update", (b0, N("viewwrite", (
                n, self.cur(n))), n),
                               uid=b.uid, loc=self.loc))

    def _raw_upd(self, old, new):
        if old.uid not in self.orig:
            self.orig[old.uid] = old
        self.st.upd[old.uid] = new

    def set_content(self, old, new):
        """The object `old` now has contents `new` (same uid)."""
        assert new.uid == old.uid
        self._raw_upd(old, new)
        # objects living inside other objects: propagate along access path
        o = old
        while o.op in ("setattr", "update", "delitem", "mutated",
                       "updmany"):
            o = o.args[0]
        if o.op == "attr":
            b = self.cur(o.args[0])
            if b.op != "inst":
                nb = N("setattr", (b, new), o.meta, uid=b.uid, loc=self.loc)
                self.set_content(b, nb)
        elif o.op == "item":
            b = self.cur(o.args[0])
            if b.op not in ("list", "tuple", "dict", "inst"):
                nb = N("update", (b, o.args[1], new), uid=b.uid, loc=self.loc)
                self.set_content(b, nb)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.set_attr(b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            i = self.ev(t.slice)
            self.set_item(b, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unknown("assignment target")

    def unpack(self, elts, v):
        v = self.cur(v)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.static_items(v)
        n = len(elts)
        if items is not None:
            if star:
                i = star[0]
                tail = n - i - 1
                vals = items[:i] + [N("list", items[i:len(items) - tail])] + \
                    items[len(items) - tail:]
                for e, x in zip(elts, vals):
                    self.assign(e, x)
                return
            if len(items) != n:
                self.effect("unpack_mismatch", v, f"{len(items)} != {n}")
                self.do_raise("ValueError", NONE)
            for e, x in zip(elts, items):
                self.assign(e, x)
            return
        if v.op == "phi":
            a, b = v.args[1], v.args[2]
            ia, ib = self.static_items(self.cur(a)), self.static_items(
                self.cur(b))
            if ia is not None and ib is not None and len(ia) == len(ib) == n \
                    and not star:
                for e, x, y in zip(elts, ia, ib):
                    self.assign(e, self.mkphi(v.args[0], x, y))
                return
        if v.op == "list" and len(v.args) == 1 and not star and \
                v.args[0].op == "mapseg" and (
                    len(v.args[0].args) == 2 or
                    v.args[0].args[2].k == TRUE.k):
            # one element per target: the i-th of what is mapped
            seq, body = v.args[0].args[:2]
            for i, e in enumerate(elts):
                self.assign(e, replace(
                    body, seq, self.getitem(seq, const(i))))
            return
        for i, e in enumerate(elts):
            if star and i == star[0]:
                self.assign(e, self.mk("restof", (v,), (i, n - i - 1)))
            elif star and i > star[0]:
                self.assign(e, self.getitem(v, const(i - n)))
            else:
                self.assign(e, self.getitem(v, const(i)))

    def static_items(self, v):
        """Elements of a sequence whose length is statically known."""
        if v.op in ("tuple", "ntuple"):
            if any(x.op == "star" for x in v.args):
                return None
            return list(v.args)
        if v.op == "list":
            if any(x.op in ("mapseg", "condseg", "museg") for x in v.args):
                return None
            return list(v.args)
        if v.op == "const" and isinstance(cval(v), (tuple, str)):
            return [const(x) for x in cval(v)]
        if v.op == "dict":
            if any(kk.op == "dstar" for kk, _ in v.args):
                return None
            return [kk for kk, _ in v.args]
        if v.op in ("numpy.array", "numpy.asarray") and all(
                is_none(a) or a.op == "const" and cval(a) is True
                for a in v.args[1:]):
            x = self.static_items(v.args[0])
            if x is None or v.args[0].op == "dict" or any(
                    y.op not in ("const", "list", "tuple") for y in x):
                return None
            return [y if y.op == "const" else self.mk("numpy.array", (y,))
                    for y in x]
        if v.op in ("numpy.eye", "numpy.identity") and all(
                is_none(a) for a in v.args[1:2]) and v.args[
                    0].op == "const" and cval(v.args[0]) in (2, 3, 4):
            k = cval(v.args[0])
            return [self.mk("numpy.array", (N("tuple", tuple(
                const(float(i == j)) for i in range(k))),)) for j in range(k)]
        return None

    # attribute / item stores
    def set_attr(self, b, name, v):
        if b.op == "phi" and b.args[1].uid != b.uid != b.args[2].uid:
            # weak update of either object
            self.effect("setattr", b, name, (v,))
            for x, pol in ((b.args[1], True), (b.args[2], False)):
                x = self.cur(x)
                old = self.getattr(x, name)
                nv = self.mkphi(b.args[0], v, old) if pol else \
                    self.mkphi(b.args[0], old, v)
                self._set_attr1(x, name, nv, record=False)
            return
        self._set_attr1(b, name, v)

    def _set_attr1(self, b, name, v, record=True):
        if record:
            self.effect("setattr", b, name, (v,))
        if b.op == "inst":
            d = dict(b.args)
            # property setters defined in package classes
            s = self.class_member(b.meta[0], "__set_" + name)
            if s is not None:
                self.call(N("bound", (b, s)), [v], {})
                return
            d[name] = v
            self._raw_upd(b, N("inst", tuple(d.items()), b.meta, uid=b.uid,
                               loc=b.loc))
            return
        if b.op == "class":
            b.meta.members[name] = v
            return
        if b.op in ("const", "unknown"):
            return
        self.set_content(b, N("setattr", (b, v), name, uid=b.uid,
                              loc=self.loc))

    def set_item(self, b, i, v, how="item assignment"):
        self.effect("mutate", b, how, (i, v))
        if b.op == "phi" and b.args[1].uid != b.uid != b.args[2].uid:
            def arm(x):
                x = self.cur(x)
                if x.op != "const":
                    self._raw_upd(x, N("update", (x, i, v), uid=x.uid,
                                       loc=self.loc))
                    self.view_clobber(x)
                return NONE
            self.branch(b.args[0], lambda: arm(b.args[1]),
                        lambda: arm(b.args[2]))
            self._raw_upd(b, N("update", (b, i, v), uid=b.uid, loc=self.loc))
            return
        if b.uid in self.either:
            c, x, y = self.either[b.uid]
            self.branch(c, lambda: self.set_item(self.cur(x), i, v) or NONE,
                        lambda: self.set_item(self.cur(y), i, v) or NONE)
        if b.op == "list" and i.op == "const" and isinstance(cval(i), int):
            items = self.static_items(b)
            if items is not None:
                if -len(items) <= cval(i) < len(items):
                    items[cval(i)] = v
                    self.set_content(b, N("list", items, uid=b.uid,
                                          loc=self.loc))
                    return
                self.do_raise("IndexError", NONE)
        if b.op == "dict":
            d = [(k, x) for k, x in b.args if k.k != i.k]
            pos = [j for j, (k, x) in enumerate(b.args) if k.k == i.k]
            if pos:
                d.insert(pos[0], (i, v))
            else:
                d.append((i, v))
            if i.op == "const" and all(k.op == "const" for k, _ in b.args):
                self.set_content(b, N("dict", tuple(d), uid=b.uid,
                                      loc=self.loc))
                return
        if b.op in ("const", "unknown"):
            return
        if b.op == "inst":
            r = self.class_member(b.meta[0], "__setitem__")
            if r is not None:
                self.call(N("bound", (b, r)), [i, v], {})
            return
        self.set_content(b, N("update", (b, i, v), uid=b.uid, loc=self.loc))
        self.view_clobber(b)

    # ---- control flow
    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        d = self.decide(c)
        if d is True:
            return self.exec_block(s.body)
        if d is False:
            return self.exec_block(s.orelse)
        base = self.st
        s1 = base.copy()
        self.st = s1
        self.assume(c, True)
        l1 = self.exec_block(s.body)
        s1 = self.st
        self.st = base.copy()
        self.assume(c, False)
        l2 = self.exec_block(s.orelse)
        s2 = self.st
        if l1 and l2:
            self.loc = self.here(s)
            self.st = self.merge2(c, s1, s2)
            return True
        if l1:
            self.st = s1
            return True
        if l2:
            self.st = s2
            return True
        return False

    def s_Match(self, s):
        v = self.ev(s.subject)
        chain = None
        # rewritten as an if/elif chain for value and wildcard patterns
        tmp = f"__match_{id(s)}"
        self.bind(tmp, v)

        def build(i):
            if i == len(s.cases):
                return []
            cs = s.cases[i]
            test = pat(cs.pattern)
            if test is None:
                return None
            if cs.guard is not None:
                test = ast.BoolOp(ast.And(), [test, cs.guard])
            rest = build(i + 1)
            if rest is None:
                return None
            n = ast.If(test, cs.body, rest)
            ast.copy_location(n, cs.body[0])
            ast.fix_missing_locations(n)
            return [n]

        def pat(p):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(ast.Name(tmp, ast.Load()), [ast.Eq()],
                                   [p.value])
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(ast.Name(tmp, ast.Load()), [ast.Is()],
                                   [ast.Constant(p.value)])
            if isinstance(p, ast.MatchOr):
                xs = [pat(q) for q in p.patterns]
                return None if None in xs else ast.BoolOp(ast.Or(), xs)
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                return ast.Constant(True)
            return None

        chain = build(0)
        if chain is None:
            self.unknown("match statement")
            return True
        return self.exec_block(chain)

    def s_With(self, s):
        ctxs = []
        for it in s.items:
            c = self.ev(it.context_expr)
            v = None
            if c.op == "inst":
                m = self.class_member(c.meta[0], "__enter__")
                if m is not None:
                    v = self.call(N("bound", (c, m)), [], {})
            if v is None:
                v = self.mk("enter", (c,))
            self.effect("enter", c, "with")
            ctxs.append(c)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        live = self.exec_block(s.body)
        if live:
            for c in reversed(ctxs):
                c = self.cur(c)
                if c.op == "inst":
                    m = self.class_member(c.meta[0], "__exit__")
                    if m is not None:
                        self.call(N("bound", (c, m)), [NONE, NONE, NONE], {})
                self.effect("exit", c, "with")
        return live

    def s_Try(self, s):
        if not s.finalbody:
            return self.try_core(s)
        tr = {"handlers": [], "caught": {}, "final": []}
        fr = self.frames[-1]
        nret = len(fr.returns)
        self.try_stack.append(tr)
        try:
            live = self.try_core(s)
        except Dead:
            live = False
        finally:
            self.try_stack.pop()
        end = self.st
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        for st, v in rets:
            self.st = st
            if self.exec_block(s.finalbody):
                fr.returns.append((self.st, v))
        for st, v, name, loc, stack in tr["final"]:
            self.st = st
            if self.exec_block(s.finalbody):
                try:
                    self.do_raise(name, v, loc=loc, stack=stack)
                except Dead:
                    pass
        self.st = end
        return self.exec_block(s.finalbody) if live else False

    def try_core(self, s):
        handlers = []
        for h in s.handlers:
            if h.type is None:
                handlers.append(("BaseException",))
            else:
                try:
                    tv = self.ev(h.type)
                except Dead:
                    tv = NONE
                names = [self.exc_name(x) for x in (
                    tv.args if tv.op == "tuple" else [tv])]
                handlers.append(tuple(names))
        tr = {"handlers": handlers, "caught": {}}
        base = self.st.copy()
        saved_may = self.mayraise
        self.mayraise = set()
        self.try_stack.append(tr)
        fr = self.frames[-1]
        nret = len(fr.returns)
        try:
            live = self.exec_block(s.body)
        finally:
            self.try_stack.pop()
        may = self.mayraise
        self.mayraise = saved_may | {
            m for m in may if not any(exc_match(m, h) for h in handlers)}
        body_state = self.st
        conds = []
        outs = []
        cexc = N("exc", (), (fr.fi.qualname, s.lineno - getattr(
            fr.fi.node, "lineno", 0), base.pc and len(base.pc) or 0),
            loc=self.loc)
        for i, h in enumerate(s.handlers):
            entries = list(tr["caught"].get(i, []))
            implicit = any(exc_match(m, handlers[i]) or m == "*"
                           for m in may)
            if not entries and not implicit:
                continue
            if implicit:
                b = base.copy()
                self.st = b
                d = self.decide_exc(may, handlers[i])
                if d is False:
                    if not entries:
                        continue
                else:
                    self.assume(cexc, True)
                    entries.append((self.st, N("excval", (), handlers[i]),
                                    handlers[i][0] if len(handlers[i]) == 1
                                    else "<reraise>"))
            for (st, v, name) in entries:
                self.st = st.copy() if st is not base else st
                # frames above are gone
                if h.name:
                    self.bind(h.name, v)
                self.handling.append((name, v))
                try:
                    hl = self.exec_block(h.body)
                finally:
                    self.handling.pop()
                if hl:
                    outs.append((self.st, None))
        # body outcome is under "no implicit exception"
        if live:
            self.st = body_state
            if s.orelse:
                live = self.exec_block(s.orelse)
            if live:
                if any(self._has(o[0].pc, cexc) for o in outs):
                    self.assume_at(base, cexc)
                outs.append((self.st, None))
        if any(self._has(o[0].pc, cexc) for o in outs):
            for j in range(nret, len(fr.returns)):
                pass
        if not outs:
            return False
        st, _ = self.tree_merge(outs, len(base.pc)) if len(outs) > 1 else \
            outs[0]
        if len(outs) > 1:
            st.pc = base.pc
        self.st = st
        return True

    s_TryStar = s_Try

    def _has(self, pc, c):
        return any(x.k == c.k for x, _ in pc)

    def assume_at(self, base, c):
        # insert the literal right after the base prefix
        i = len(base.pc)
        pc = self.st.pc
        self.st.pc = pc[:i] + ((c, False),) + pc[i:]
        self.st.facts[c.k] = False

    def decide_exc(self, may, handler):
        if may == {"ImportError"} and any(
                exc_match("ImportError", (h,)) for h in handler):
            return False if self.import_ok else None
        return None

    def s_For(self, s):
        it = self.ev(s.iter)
        segs = self.segments(it)
        broke = []
        live = True
        fr = self.frames[-1]
        fr.loops.append({"break": [], "continue": []})
        try:
            for sg in segs:
                live = self.run_seg(s, sg)
                if not live:
                    break
        finally:
            lp = fr.loops.pop()
        if live and s.orelse:
            live = self.exec_block(s.orelse)
        outs = []
        if live:
            outs.append((self.st, None))
        outs += [(b, None) for b in lp["break"]]
        if not outs:
            return False
        if len(outs) > 1:
            n = 0
            pcs = [o[0].pc for o in outs]
            while all(len(p) > n for p in pcs) and all(
                    p[n][0].k == pcs[0][n][0].k and p[n][1] == pcs[0][n][1]
                    for p in pcs):
                n += 1
            st = outs[0]
            for o in outs[1:]:
                c = N("brk", (it,), loc=self.loc)
                for (q, pol) in reversed(o[0].pc[n:]):
                    if q.op != "inloop":
                        c = self.andc(q if pol else self.neg(q), TRUE) \
                            if False else c
                st = self._m2(c, o, st, pcs[0][:n])
            self.st = st[0]
        else:
            self.st = outs[0][0]
        # drop loop literals from the path condition
        self.st.pc = tuple(x for x in self.st.pc if x[0].op != "inloop" or
                           x[0] in ())
        return True

    def s_While(self, s):
        fr = self.frames[-1]
        fr.loops.append({"break": [], "continue": []})
        it = N("while", (), (fr.fi.qualname, s.lineno - getattr(
            fr.fi.node, "lineno", 0)))
        try:
            live = self.gen_loop(
                it, None, TRUE, s.body, None, test=s.test)
        finally:
            lp = fr.loops.pop()
        outs = [(self.st, None)] if live else []
        outs += [(b, None) for b in lp["break"]]
        if not outs:
            return False
        st = outs[0]
        for o in outs[1:]:
            st = self._m2(N("brk", (it,)), o, st, ())
        pc = outs[0][0].pc
        self.st = st[0]
        self.st.pc = tuple(x for x in pc if x[0].op != "inloop")
        return True

    def run_seg(self, s, sg):
        kind = sg[0]
        fr = self.frames[-1]
        if kind == "item":
            self.assign(s.target, sg[1])
            return self._body_once(s.body)
        if kind == "cond":
            c, v = sg[1], sg[2]
            d = self.decide(c)
            if d is False:
                return True
            if d is True:
                self.assign(s.target, v)
                return self._body_once(s.body)
            base = self.st
            self.st = base.copy()
            self.assume(c, True)
            self.assign(s.target, v)
            l1 = self._body_once(s.body)
            s1 = self.st
            self.st = base.copy()
            self.assume(c, False)
            s2 = self.st
            self.st = self.merge2(c, s1, s2) if l1 else s2
            return True
        if kind == "map":
            return self.gen_loop(sg[1], sg[2], sg[3], s.body, s.target)
        self.unknown("iteration over " + str(kind))
        return self.gen_loop(N("unknown", (), "iter"), N("unknown", (), "it"),
                             TRUE, s.body, s.target)

    def _body_once(self, body):
        """One unrolled iteration (continue merges with the normal end)."""
        fr = self.frames[-1]
        lp = fr.loops[-1]
        saved = lp["continue"]
        lp["continue"] = []
        n0 = len(self.st.pc)
        live = self.exec_block(body)
        outs = [(self.st, None)] if live else []
        outs += [(c, None) for c in lp["continue"]]
        lp["continue"] = saved
        if not outs:
            return False
        if len(outs) > 1:
            st, _ = self.tree_merge(outs, n0)
            self.st = st
        else:
            self.st = outs[0][0]
        return True

    def gen_loop(self, it, elem, segcond, body, target, test=None):
        """Loop over an unknown number of elements: fixpoint over the set of
        loop-carried variables and objects."""
        self.loc = self.loc
        fr = self.frames[-1]
        pre = self.st
        depth = self.active_iters.get(it.k, 0)
        self.active_iters[it.k] = depth + 1
        chg_env, chg_obj = {}, {}
        nret = len(fr.returns)
        lp = fr.loops[-1]
        nb = len(lp["break"])
        n_eff = len(self.effects), len(self.calls), len(self.raises), \
            len(self.unknowns), len(self.looplog)
        live = True
        end = None
        for attempt in range(8):
            del fr.returns[nret:]
            del lp["break"][nb:]
            del self.effects[n_eff[0]:]
            del self.calls[n_eff[1]:]
            del self.raises[n_eff[2]:]
            del self.unknowns[n_eff[3]:]
            del self.looplog[n_eff[4]:]
            lp["continue"] = []
            log = {"it": it, "seq": self.nvol, "test": None, "pre": pre,
                   "mu_obj": dict(chg_obj), "mu_env": dict(chg_env),
                   "fid": fr.fid, "back": [], "end": None}
            st = pre.copy()
            self.st = st
            for (fid, v), mu in chg_env.items():
                st.envs[fid][v] = mu
            for uid, mu in chg_obj.items():
                st.upd[uid] = mu
            # facts about mutated things are no longer valid in the loop
            st.pc = st.pc + ((N("inloop", (it,)), True),)
            if segcond.op != "const":
                self.assume(segcond, True)
            if test is not None:
                c = self.truth(self.ev(test))
                d = self.decide(c)
                log["test"] = c
                if d is False:
                    live, end = False, None
                    break
                if d is None:
                    self.assume(c, True)
            if target is not None:
                self.assign(target, elem)
            n0 = len(self.st.pc)
            try:
                live = self.exec_block(body)
            except Dead:
                live = False
            outs = [(self.st, None)] if live else []
            outs += [(c, None) for c in lp["continue"]]
            lp["continue"] = []
            log["back"] = [o[0].pc for o in outs]
            if not outs:
                live, end = False, None
                # all iterations leave the loop: nothing is carried
                break
            if len(outs) > 1:
                end, _ = self.tree_merge(outs, n0)
            else:
                end = outs[0][0]
            live = True
            new = False
            for fid, e in end.envs.items():
                if isinstance(fid, str):
                    continue
                p = pre.envs.get(fid)
                if p is None:
                    continue
                for v, x in e.items():
                    if (fid, v) in chg_env:
                        continue
                    if target is not None and v in _names(target) and \
                            fid == fr.fid:
                        continue
                    o = p.get(v, UNBOUND)
                    if o is x or (o.uid == x.uid):
                        continue
                    if o.k == x.k and o.op in ("const", "extern", "func",
                                               "class", "module"):
                        continue
                    self.tick()
                    chg_env[(fid, v)] = N("mu", (o,), (it.k, v, depth),
                                          loc=self.loc)
                    new = True
            for uid, x in end.upd.items():
                if uid in chg_obj:
                    m = chg_obj[uid]
                    if m.op == "inst":
                        w = self._mu_obj(m, it, depth, uid, x)
                        if w is not m:
                            chg_obj[uid] = w
                            new = True
                    continue
                o = pre.upd.get(uid) or self.orig.get(uid)
                if pre.upd.get(uid) is x:
                    continue
                if o is None:
                    continue
                if uid not in pre.upd and not _existed(pre, uid):
                    continue
                self.tick()
                chg_obj[uid] = self._mu_obj(o, it, depth, uid, x)
                new = True
            for (fid, v), mu in chg_env.items():
                x = end.envs.get(fid, {}).get(v, UNBOUND)
                x = end.upd.get(x.uid, x)
                if mu.meta not in self.loose and lib._arrayish(
                        mu, self.loose) and not lib._arrayish(x, self.loose):
                    self.loose.add(mu.meta)
                    new = True
            if not new:
                break
        self.active_iters[it.k] = depth
        log.update(end=end, brk=[b.pc for b in lp["break"][nb:]],
                   rets=[r[0].pc for r in fr.returns[nret:]],
                   effects=self.effects[n_eff[0]:],
                   calls=self.calls[n_eff[1]:], loc=self.loc)
        self.looplog.append(log)
        if not live:
            # the body never completes normally; the loop may run zero times
            self.st = pre
            return True
        # post state
        post = pre.copy()
        for (fid, v), mu in chg_env.items():
            bodyv = end.envs[fid].get(v, UNBOUND)
            bodyv = end.upd.get(bodyv.uid, bodyv)
            init = pre.envs[fid].get(v, UNBOUND)
            init = pre.upd.get(init.uid, init)
            post.envs[fid][v] = self._loop_out(it, segcond, init, mu, bodyv,
                                               depth)
        for uid, mu in chg_obj.items():
            init = pre.upd.get(uid) or self.orig.get(uid)
            bodyv = end.upd.get(uid, mu)
            post.upd[uid] = self._loop_obj(it, segcond, init, mu, bodyv,
                                           depth, uid)
        for fid, e in end.envs.items():
            if fid not in post.envs:
                post.envs[fid] = e
        for uid, x in end.upd.items():
            if uid not in post.upd and uid not in chg_obj:
                post.upd[uid] = x
        if target is not None:
            for v in _names(target):
                init = pre.envs[fr.fid].get(v, UNBOUND)
                x = end.envs[fr.fid].get(v, UNBOUND)
                post.envs[fr.fid][v] = N("last", (it, init, x), loc=self.loc)
        self.st = post
        return True

    def _mu_obj(self, o, it, depth, uid, end=None):
        if o.op == "list":
            return N("list", (N("museg", (), (it.k, uid, depth)),), uid=uid,
                     loc=o.loc)
        if o.op == "inst":
            # only the attributes that a pass changes are carried
            e = dict(end.args) if end is not None and end.op == "inst" \
                else None
            new = False
            d = []
            for f, v in o.args:
                mu = N("mu", (v,), (it.k, "." + f, depth, uid))
                if not (v.op == "mu" and v.meta == mu.meta) and (
                        e is None or f not in e or e[f].k != v.k or
                        e[f].uid != v.uid):
                    d.append((f, mu))
                    new = True
                else:
                    d.append((f, v))
            return N("inst", tuple(d), o.meta, uid=uid, loc=o.loc) \
                if new or end is None else o
        return N("mu", (o,), (it.k, "obj", depth, uid), uid=uid, loc=o.loc)

    def _loop_out(self, it, cond, init, mu, body, depth):
        if body.k == mu.k:
            return init
        return N("loop", (it, init, mu, body, cond), (depth,), loc=self.loc)

    def _loop_obj(self, it, cond, init, mu, body, depth, uid):
        if body.k == mu.k and body.op != "inst":
            return init
        if init.op == "list" and body.op == "list":
            a = body.args
            if a and a[0].op == "museg" and not any(
                    x.op == "museg" for x in a[1:]):
                segs = list(init.args)
                ext = a[1:]
                if len(ext) == 1:
                    x = ext[0]
                    if x.op == "condseg":
                        segs.append(N("mapseg", (it, x.args[1], self.andc(
                            cond, x.args[0])), loc=x.loc))
                        return N("list", segs, uid=uid, loc=init.loc)
                    if x.op != "mapseg":
                        segs.append(N("mapseg", (it, x, cond), loc=x.loc))
                        return N("list", segs, uid=uid, loc=init.loc)
                segs.append(N("mapseg", (it, N("multi", ext), cond)))
                return N("list", segs, uid=uid, loc=init.loc)
        if init.op == "inst" and body.op == "inst":
            fi, fb, fm = dict(init.args), dict(body.args), dict(mu.args)
            out = []
            for f, v in fb.items():
                if f in fm and f in fi:
                    out.append((f, self._loop_out(it, cond, fi[f], fm[f], v,
                                                  depth)))
                else:
                    out.append((f, N("loop", (it, fi.get(f, UNBOUND), UNBOUND,
                                              v, cond), (depth,))))
            return N("inst", tuple(out), init.meta, uid=uid, loc=init.loc)
        return N("loop", (it, init, mu, body, cond), (depth,), uid=uid,
                 loc=self.loc)

    def s_Break(self, s):
        lp = self.frames[-1].loops
        if lp:
            lp[-1]["break"].append(self.st)
            self.breaks.append((self.st.pc, self.loc))
        return False

    def s_Continue(self, s):
        lp = self.frames[-1].loops
        if lp:
            lp[-1]["continue"].append(self.st)
        return False

    # ------------------------------------------------------------ iteration
    def segments(self, it, raw=False):
        it = it if raw else self.cur(it)
        if it.op in ("list", "tuple", "ntuple", "set"):
            out = []
            for a in it.args:
                if a.op == "mapseg":
                    # identity sub-iterators keep their own element
                    out.append(("map", a.args[0], a.args[1], a.args[2]))
                elif a.op == "condseg":
                    out.append(("cond", a.args[0], a.args[1]))
                elif a.op in ("museg",):
                    out.append(("map", a, N("elem", (a,)), TRUE))
                elif a.op == "star":
                    out += self.segments(a.args[0])
                else:
                    out.append(("item", a))
            return out
        if it.op == "const" and isinstance(cval(it), (str, tuple)):
            return [("item", const(x)) for x in cval(it)]
        if it.op == "dict" and all(k.op != "dstar" for k, _ in it.args):
            return [("item", k) for k, _ in it.args]
        if it.op == "zip":
            if len(it.args) == 1 and it.args[0].op == "star":
                rows = self._unzipped(it.args[0].args[0])
                if rows is not None:
                    return self.segments(rows)
            segs = [] if any(a.op == "star" for a in it.args) else [
                self.segments(a) for a in it.args]
            if segs and all(all(x[0] == "item" for x in sg) for sg in segs):
                n = min(len(sg) for sg in segs)
                return [("item", N("tuple", [sg[i][1] for sg in segs]))
                        for i in range(n)]
            # same single map source
            if segs and all(len(sg) == 1 and sg[0][0] == "map" and
                            is_const(sg[0][3], True) for sg in segs):
                srcs = {sg[0][1].k for sg in segs}
                if len(srcs) == 1:
                    return [("map", segs[0][0][1],
                             N("tuple", [sg[0][2] for sg in segs]), TRUE)]
            return [("map", it, N("tuple", [
                N("star", (N("elem", (a,), it.k),)) if a.op == "star" else
                N("elem", (a,), it.k) for a in it.args]), TRUE)]
        if it.op == "enumerate":
            sub = self.segments(it.args[0])
            start = cval(it.args[1]) if it.args[1].op == "const" else None
            if all(x[0] == "item" for x in sub) and isinstance(start, int):
                return [("item", N("tuple", [const(start + i), x[1]]))
                        for i, x in enumerate(sub)]
            out = []
            for x in sub:
                if x[0] == "map":
                    out.append(("map", x[1], N("tuple", [
                        N("index_of", (x[2], it.args[0])), x[2]]), x[3]))
                elif x[0] == "item":
                    out.append(("item", N("tuple", [
                        N("index_of", (x[1], it.args[0])), x[1]])))
                else:
                    out.append(("cond", x[1], N("tuple", [
                        N("index_of", (x[2], it.args[0])), x[2]])))
            return out
        if it.op == "range":
            a = it.args
            if all(x.op == "const" for x in a):
                r = range(*[cval(x) for x in a])
                if len(r) <= 64:
                    return [("item", const(i)) for i in r]
            lo, hi = (const(0), a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) <= 2 and is_const(lo, 0) and hi.op == "builtins.len":
                x = hi.args[0]
                out = []
                for sg in self.segments(x):
                    if sg[0] == "item":
                        out.append(("item", N("index_of", (sg[1], x))))
                    elif sg[0] == "map":
                        out.append(("map", sg[1],
                                    N("index_of", (sg[2], x)), sg[3]))
                    else:
                        out.append(("cond", sg[1],
                                    N("index_of", (sg[2], x))))
                return out
            return [("map", it, N("elem", (it,), self._depth(it)), TRUE)]
        if it.op == "phi":
            a = self.segments(self.kid(it, 1), True)
            b = self.segments(self.kid(it, 2), True)
            out = []
            for c, sg in ((it.args[0], a), (self.neg(it.args[0]), b)):
                for x in sg:
                    if x[0] == "item":
                        out.append(("cond", c, x[1]))
                    elif x[0] == "cond":
                        out.append(("cond", self.andc(c, x[1]), x[2]))
                    else:
                        out.append(("map", x[1], x[2], self.andc(c, x[3])))
            return out
        if it.op == "reversed":
            sub = self.segments(it.args[0])
            out = []
            for x in reversed(sub):
                if x[0] == "map":
                    # reversal of an unknown source
                    r = N("reversed", (x[1],))
                    src = x[2]
                    if src.op == "elem" and src.args[0].k == x[1].k:
                        out.append(("map", r, N("elem", (r,)), x[3]))
                    else:
                        out.append(("map", r, subst_elem(src, x[1], r), x[3]))
                else:
                    out.append(x)
            return out
        if it.op == "dictitems":
            d = it.args[0]
            if d.op == "dict":
                return [("item", N("tuple", [k, v])) for k, v in d.args]
        if it.op in ("builtins.list", "builtins.tuple", "builtins.iter",
                     "listof") and it.args:
            return self.segments(it.args[0])
        if it.op in ("inst",):
            m = self.class_member(it.meta[0], "__iter__")
            if m is not None:
                return self.segments(self.call(N("bound", (it, m)), [], {}))
        return [("map", it, N("elem", (it,), self._depth(it)), TRUE)]

    def _unzipped(self, n):
        """The rows if n is the list (or iterator) of their columns."""
        n = self.cur(n)
        while n.op in ("builtins.list", "builtins.tuple") and n.args:
            n = self.cur(n.args[0])
        if n.op in ("list", "tuple") and len(n.args) == 1 and \
                n.args[0].op == "mapseg":
            src, e, c = n.args[0].args
            if is_const(c, True) and src.op == "zip" and \
                    self.segments(src)[0][2].k == e.k:
                n = src
        if n.op == "zip" and len(n.args) == 1 and n.args[0].op == "star":
            return n.args[0].args[0]
        return None

    def _depth(self, it):
        d = self.active_iters.get(it.k, 0)
        return d if d else None

    # ---------------------------------------------------------- expressions
    def ev(self, e):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unknown(f"expression {type(e).__name__}")
        l = getattr(e, "lineno", None)
        if l is not None and self.frames:
            self.loc = self.here(e)
        r = m(e)
        return self.cur(r)

    def e_Constant(self, e):
        if isinstance(e.value, (list, dict, set)):
            return self.unknown("constant")
        if e.value is Ellipsis:
            return N("ellipsis")
        return const(e.value, self.loc)

    def ev_name(self, name):
        fr = self.frames[-1]
        env = self.st.envs[fr.fid]
        if name in env and name not in fr.globals:
            v = env[name]
            if v.op == "unbound":
                self.do_raise("UnboundLocalError", NONE)
            return self.cur(v)
        for fid in reversed(fr.closure):
            e = self.st.envs.get(fid)
            if e and name in e:
                return self.cur(e[name])
        me = self.st.envs.get("mod:" + fr.module.name, {})
        if name in me:
            return self.cur(me[name])
        if hasattr(_bi, name):
            return N("extern", (), "builtins." + name)
        if name == "__file__":
            return const(fr.module.path)
        return self.unknown(f"name {name}")

    def e_Name(self, e):
        return self.ev_name(e.id)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Tuple(self, e):
        return self._seq("tuple", e.elts)

    def e_List(self, e):
        return self._seq("list", e.elts)

    def e_Set(self, e):
        return self._seq("set", e.elts)

    def _seq(self, op, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                items = self.static_items(v)
                if items is not None:
                    out += items
                elif v.op == "list" and op in ("list", "tuple"):
                    out += list(v.args)
                else:
                    out.append(N("star", (v,)))
            else:
                out.append(self.ev(x))
        if op == "list" and any(x.op == "star" for x in out):
            o2 = []
            for x in out:
                if x.op == "star":
                    for sg in self.segments(x.args[0]):
                        if sg[0] == "item":
                            o2.append(sg[1])
                        elif sg[0] == "cond":
                            o2.append(N("condseg", (sg[1], sg[2])))
                        else:
                            o2.append(N("mapseg", (sg[1], sg[2], sg[3])))
                else:
                    o2.append(x)
            out = o2
        if op == "tuple" and any(x.op in ("mapseg", "condseg", "museg")
                                 for x in out):
            return self.mk("list", out)
        return self.mk(op, out)

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v)
                if x.op == "dict":
                    items += list(x.args)
                else:
                    items.append((N("dstar"), x))
            else:
                items.append((self.ev(k), self.ev(v)))
        seen = {}
        out = []
        for k, v in items:
            if k.op != "dstar" and k.k in seen:
                out[seen[k.k]] = (k, v)
                continue
            seen[k.k] = len(out)
            out.append((k, v))
        return self.mk("dict", out)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value)
                spec = None
                if v.format_spec is not None:
                    spec = ast.unparse(v.format_spec)
                if x.op == "const" and spec is None and isinstance(
                        cval(x), (str, int)) and v.conversion == -1:
                    parts.append(const(str(cval(x))))
                else:
                    parts.append(x if spec is None else
                                 N("fmt", (x,), spec))
        out = []
        for p in parts:
            if out and p.op == "const" and out[-1].op == "const" and \
                    isinstance(cval(p), str) and isinstance(
                        cval(out[-1]), str):
                out[-1] = const(cval(out[-1]) + cval(p))
            else:
                out.append(p)
        if len(out) == 1 and out[0].op == "const":
            return out[0]
        if not out:
            return const("")
        return self.mk("fstr", out)

    def e_FormattedValue(self, e):
        return self.ev(e.value)

    def e_Lambda(self, e):
        fr = self.frames[-1]
        q = fr.fi.qualname + ".<lambda>"
        return self.make_func(e, q)

    def e_Starred(self, e):
        return N("star", (self.ev(e.value),))

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.branch(c, lambda: self.ev(e.body),
                           lambda: self.ev(e.orelse))

    def branch(self, c, f, g):
        d = self.decide(c)
        if d is True:
            return f()
        if d is False:
            return g()
        base = self.st
        self.st = base.copy()
        self.assume(c, True)
        a = b = None
        try:
            a = f()
        except Dead:
            pass
        s1 = self.st
        self.st = base.copy()
        self.assume(c, False)
        try:
            b = g()
        except Dead:
            pass
        s2 = self.st
        if a is None and b is None:
            raise Dead()
        if a is None:
            self.st = s2
            return b
        if b is None:
            self.st = s1
            return a
        self.st = self.merge2(c, s1, s2)
        return a if a.uid == b.uid else self.mkphi(
            c, s1.upd.get(a.uid, a), s2.upd.get(b.uid, b))

    def e_BoolOp(self, e):
        vals = e.values
        isor = isinstance(e.op, ast.Or)

        def go(i):
            v = self.ev(vals[i])
            if i == len(vals) - 1:
                return v
            c = self.truth(v)
            if isor:
                r = self.branch(c, lambda: v, lambda: go(i + 1))
            else:
                r = self.branch(c, lambda: go(i + 1),
                                lambda: c if self._boolish(v) else v)
            return r

        v = go(0)
        return v

    def _boolish(self, v):
        return v.op in ("isnone", "cmp", "not", "isinst", "hasattr", "truth",
                        "in_")

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return self.neg(self.truth(v))
        op = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        return self.unop(op, v)

    def unop(self, op, v):
        if v.op == "const" and isinstance(cval(v), (int, float)):
            x = cval(v)
            return const(-x if op == "-" else +x if op == "+" else ~x)
        return self.mk("unop", (v,), op)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        a = self.cur(a)
        return self.binop(OPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if a.op == "const" and b.op == "const":
            try:
                x, y = cval(a), cval(b)
                if isinstance(x, (int, float, str)) and isinstance(
                        y, (int, float, str, tuple)):
                    f = FOLD.get(op)
                    if f and not (op == "**" and abs(y) > 64) and not (
                            op == "*" and isinstance(x, str)):
                        return const(f(x, y), self.loc)
            except Exception:
                pass
        if op == "+":
            if a.op == "tuple" and b.op == "tuple":
                return self.mk("tuple", a.args + b.args)
            if a.op == "list" and b.op == "list":
                return self.mk("list", a.args + b.args)
            if a.op == "tuple" and b.op == "const" and isinstance(
                    cval(b), tuple):
                return self.mk("tuple", a.args + tuple(
                    const(x) for x in cval(b)))
            sa, sb = self._strparts(a), self._strparts(b)
            if sa is not None and sb is not None:
                return self.mk("fstr", sa + sb)
        if op == "%" and a.op == "const" and isinstance(cval(a), str):
            return self.mk("strfmt", (a, b))
        if op == "*" and a.op in ("list", "tuple") and b.op == "const" and \
                isinstance(cval(b), int) and 0 <= cval(b) < 32:
            return self.mk(a.op, a.args * cval(b))
        if a.op == "const" and b.op in ("list",) and op == "*":
            return self.binop(op, b, a)
        return self.mk("binop", (a, b), op)

    def _strparts(self, a):
        if a.op == "fstr":
            return a.args
        if a.op == "const" and isinstance(cval(a), str):
            return (a,)
        return None

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        ops = list(zip(e.ops, e.comparators))

        def one(op, a, b):
            return self.compare(op, a, b)

        if len(ops) == 1:
            return one(ops[0][0], left, self.ev(ops[0][1]))
        cs = []
        for op, r in ops:
            rv = self.ev(r)
            cs.append(one(op, left, rv))
            left = rv
        res = cs[-1]
        for c in reversed(cs[:-1]):
            res = self.mkphi(self.truth(c), res, FALSE)
        return res

    def compare(self, op, a, b):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            if is_none(b):
                r = self.isnone(a)
            elif is_none(a):
                r = self.isnone(b)
            elif a.op == "const" and b.op == "const":
                r = TRUE if cval(a) is cval(b) else FALSE
            elif a.op in ("extern", "class") and b.op in ("extern", "class"):
                r = TRUE if a.k == b.k else FALSE
            elif a.uid == b.uid:
                r = TRUE
            elif b.op == "const" and (a.op in ("tuple", "list", "dict", "func")
                                      or self._isarr(a)):
                r = FALSE
            elif a.op == "phi" and b.op == "const":
                r = self.mkphi(a.args[0], self.compare(op, a.args[1], b),
                               self.compare(op, a.args[2], b))
                return r
            else:
                if a.op == "in" and b.op == "const" and self.tyof(a).get(
                        "kind") in ("ndarray", "DataArray", "str", "frame"):
                    r = FALSE
                elif a.op == "in" and b.op == "const" and is_none(b) is False \
                        and self.tyof(a).get("none"):
                    r = FALSE
                else:
                    r = N("cmp", (a, b), "is", loc=self.loc)
            return r if t is ast.Is else self.neg(r)
        if t in (ast.In, ast.NotIn):
            r = self._in(a, b)
            return r if t is ast.In else self.neg(r)
        if a.op == "phi" and b.op == "const" and t in (ast.Eq, ast.NotEq) and \
                (a.args[1].op == "const" or a.args[2].op == "const"):
            return self.mkphi(a.args[0], self.compare(op, a.args[1], b),
                              self.compare(op, a.args[2], b))
        if a.op == "const" and b.op == "const":
            try:
                return const(bool(CMP[t](cval(a), cval(b))))
            except Exception:
                pass
        if t is ast.Eq or t is ast.NotEq:
            x, y = (b, a) if a.op == "const" and b.op != "const" else (a, b)
            if x.op in ("extern",) and y.op in ("extern",):
                r = TRUE if x.k == y.k else FALSE
            elif is_none(y):
                r = self.isnone(x)
            elif x.op == "dtypeof":
                r = N("cmp", (x, y), "==", loc=self.loc)
            elif self.same_shape(x, y) is not None:
                r = TRUE if self.same_shape(x, y) else FALSE
            elif x.op == "tuple" and y.op == "tuple" and len(x.args) != len(
                    y.args) and not any(z.op == "star"
                                        for z in x.args + y.args):
                r = FALSE
            else:
                r = N("cmp", (x, y), "==", loc=self.loc)
                if self.decider is not None and r.op != "const":
                    pass
            return r if t is ast.Eq else self.neg(r)
        if t is ast.Gt:
            return N("cmp", (b, a), "<", loc=self.loc)
        if t is ast.GtE:
            return N("cmp", (b, a), "<=", loc=self.loc)
        return N("cmp", (a, b), {ast.Lt: "<", ast.LtE: "<="}[t], loc=self.loc)

    def by_identity(self, n):
        """Is n equal to nothing but itself?"""
        ci = n.meta[0] if n.op == "inst" else self.tyof(n).get("cls")
        return ci is not None and hasattr(ci, "members") and \
            self.class_member(ci, "__eq__") is None and n.op != "phi"

    def known_shape(self, n):
        """Shape of an array made with it, as a tuple, or None."""
        n = self.cur(n)
        while n.op in ("update", "numpy.asarray", "numpy.array",
                       "numpy.zeros_like", "numpy.ones_like", "m:copy",
                       "m:astype") and n.args:
            n = n.args[0]
        if n.op in ("numpy.zeros", "numpy.ones", "numpy.empty",
                    "numpy.full"):
            t = n.args[0]
            if t.op == "const" and isinstance(cval(t), int):
                t = N("tuple", (t,))
            if t.op in ("tuple", "list") and not any(
                    x.op == "star" for x in t.args):
                return t
        return None

    def same_shape(self, a, b):
        """Truth of a == b for the shape a of an array, or None."""
        if a.op != "attr" or a.meta != "shape" or b.op not in (
                "tuple", "const"):
            return None
        t = self.known_shape(a.args[0])
        want = self.static_items(b)
        if t is None or want is None:
            return None
        if len(t.args) != len(want):
            return False
        if all(x.k == y.k for x, y in zip(t.args, want)):
            return True
        if any(x.op == y.op == "const" and cval(x) != cval(y)
               for x, y in zip(t.args, want)):
            return False
        return None

    def _isarr(self, a):
        return a.op.startswith(("numpy.", "quaternion.", "binop"))

    def _in(self, a, b):
        if b.op == "const" and isinstance(cval(b), str):
            if a.op == "const" and isinstance(cval(a), str):
                return TRUE if cval(a) in cval(b) else FALSE
            return N("in_", (a, b), loc=self.loc)
        items = self.static_items(b)
        if items is not None:
            if a.op == "const" and all(x.op == "const" for x in items):
                return TRUE if any(is_const(x, cval(a)) for x in items) \
                    else FALSE
            if b.op != "const" and len(items) <= 8 and all(
                    x.op == "const" or self.by_identity(x) for x in items):
                r = FALSE
                for x in reversed(items):
                    c = self.compare(ast.Eq() if x.op == "const" else
                                     ast.Is(), a, x)
                    r = self.mkphi(self.truth(c), TRUE, r)
                return r
        if b.op == "update":
            if b.args[1].k == a.k:
                return TRUE
        return N("in_", (a, b), loc=self.loc)

    def e_Attribute(self, e):
        b = self.ev(e.value)
        return self.getattr(b, e.attr)

    def getattr(self, b, name, raw=False):
        if not raw:
            b = self.cur(b)
        op = b.op
        if op == "extern":
            return N("extern", (), lib.canon_extern(b.meta + "." + name),
                     loc=self.loc)
        if op == "module":
            self.load_module(b.meta)
            env = self.st.envs.get("mod:" + b.meta, {})
            if name in env:
                return env[name]
            if b.meta + "." + name in self.p.modules:
                self.load_module(b.meta + "." + name)
                return N("module", (), b.meta + "." + name)
            return self.unknown(f"module attribute {b.meta}.{name}")
        if op == "phi":
            if name in MUTATORS and b.uid in (b.args[1].uid, b.args[2].uid) \
                    and not any(x.op in ("inst", "list", "dict")
                                for x in b.args[1:]):
                return N("method", (b,), name)
            x = self.getattr(self.kid(b, 1), name, True)
            y = self.getattr(self.kid(b, 2), name, True)
            if x.k == y.k and x.uid == y.uid:
                return x
            return self.mkphi(b.args[0], x, y)
        if op == "inst":
            d = dict(b.args)
            if name in self.volatile:
                return self.vol(name)
            if name in d:
                return self.cur(d[name])
            if name == "__class__":
                return self.classes.get(b.meta[0].qualname) or N(
                    "class", (), b.meta[0])
            return self._class_attr(b, b.meta[0], name)
        if op == "class":
            m = self.class_member(b.meta, name)
            if m is not None:
                return self.bind_method(m, b, cls=b)
            if name == "__name__":
                return const(b.meta.name)
            return self.mk("attr", (b,), name)
        if op == "super":
            ci, inst = b.meta[0], b.args[0]
            for base in ci.bases:
                if base.op == "class":
                    m = self.class_member(base.meta, name)
                    if m is not None:
                        return self.bind_method(m, inst, None)
            return self.mk("method", (inst,), "super." + name)
        if op == "ntuple":
            flds = b.meta[1]
            if name in flds:
                return self.cur(b.args[flds.index(name)])
            if name == "_asdict":
                return self.mk("method", (b,), name)
        if op == "setattr":
            if b.meta == name:
                return self.cur(b.args[1])
            # look through
            o = b.args[0]
            r = self._attr_of(o, name)
            return r
        if op in ("update", "mutated", "delitem"):
            return self._attr_of(b.args[0], name, b)
        if op == "in":
            t = dict(b.meta[1])
            ci = t.get("cls")
            if ci is not None:
                m = self.class_member(ci, name)
                if m is not None:
                    return self.bind_method(m, b, None)
            fl = t.get("fields")
            if fl is not None and name in dict(fl):
                return dict(fl)[name]
        else:
            t = self.tyof(b)
            ci = t.get("cls")
            if ci is not None and op != "inst":
                m = self.class_member(ci, name)
                if m is not None:
                    return self.bind_method(m, b, None)
        return lib.attribute(self, b, name)

    def vol(self, name):
        """A value that can be another one at every read."""
        self.nvol += 1
        return N("vol", (), (name, self.nvol), loc=self.loc)

    def _attr_of(self, o, name, holder=None):
        while o.op in ("setattr", "update", "mutated", "delitem"):
            if o.op == "setattr" and o.meta == name:
                return self.cur(o.args[1])
            if holder is not None and name in ("data", "values", "T",
                                               "columns", "attrs"):
                if name != "attrs":
                    return lib.attribute(self, holder, name)
            o = o.args[0]
        u = o
        if o.op in ("phi", "loop", "mu", "inst") and name not in (
                "data", "values", "T", "columns"):
            return self.getattr(o, name, True)
        t = self.tyof(u)
        ci = t.get("cls")
        if ci is not None:
            m = self.class_member(ci, name)
            if m is not None:
                return self.bind_method(m, u, None)
        if holder is not None and name not in ("shape", "ndim", "dtype",
                                               "dims", "attrs", "name"):
            return lib.attribute(self, holder, name)
        return lib.attribute(self, u, name)

    def class_member(self, ci, name):
        ci = self.p.classes.get(ci.qualname, ci)
        if not ci.members and ci.qualname in self.classes:
            ci = self.classes[ci.qualname].meta
        if name in ci.members:
            return ci.members[name]
        for b in ci.bases:
            if b.op == "class":
                m = self.class_member(b.meta, name)
                if m is not None:
                    return m
        return None

    def _class_attr(self, b, ci, name):
        m = self.class_member(ci, name)
        if m is not None:
            return self.bind_method(m, b, None)
        g = self.class_member(ci, "__getattr__")
        if g is not None:
            return self.call(N("bound", (b, g)), [const(name)], {})
        # attribute provided by an external base class (e.g. tree node)
        return self.mk("attr", (b,), name)

    def bind_method(self, m, inst, cls):
        if m.op == "deco":
            k = m.meta
            if k == "staticmethod":
                return m.args[0]
            if k == "classmethod":
                c = cls
                if c is None:
                    ci = inst.meta[0] if inst.op == "inst" else \
                        self.tyof(inst).get("cls")
                    c = self.classes.get(ci.qualname) or N("class", (), ci)
                return N("bound", (c, m.args[0]), loc=self.loc)
            if k == "property" and cls is None:
                return self.call(N("bound", (inst, m.args[0])), [], {})
            return m.args[0]
        if m.op in ("func", "decorated"):
            if cls is not None:
                return m
            return N("bound", (inst, m), loc=self.loc)
        return m

    def e_Subscript(self, e):
        b = self.ev(e.value)
        i = self.ev(e.slice)
        b = self.cur(b)
        return self.getitem(b, i)

    def e_Slice(self, e):
        return N("slice", (NONE if e.lower is None else self.ev(e.lower),
                           NONE if e.upper is None else self.ev(e.upper),
                           NONE if e.step is None else self.ev(e.step)))

    def e_Index(self, e):
        return self.ev(e.value)

    def e_ExtSlice(self, e):
        return N("tuple", [self.ev(x) for x in e.dims])

    def getitem(self, b, i):
        op = b.op
        if op == "m:walk" and i.op == "slice" and all(
                x.op == "const" for x in i.args):
            return N("tuple", [self.getitem(b, const(j)) for j in range(3)[
                slice(*[cval(x) for x in i.args])]], loc=self.loc)
        if op == "phi":
            if b.args[1].op in ("tuple", "list", "dict", "ntuple") or \
                    b.args[2].op in ("tuple", "list", "dict", "ntuple"):
                if "dict" in (b.args[1].op, b.args[2].op):
                    # a missing key raises on that alternative only
                    return self.branch(
                        b.args[0], lambda: self.getitem(self.kid(b, 1), i),
                        lambda: self.getitem(self.kid(b, 2), i))
                return self.mkphi(b.args[0],
                                  self.getitem(self.kid(b, 1), i),
                                  self.getitem(self.kid(b, 2), i))
            return self.mk("item", (b, i))
        if i.op == "index_of":
            if i.args[1].k == b.k or i.args[1].uid == b.uid:
                return self.cur(i.args[0])
        if op in ("tuple", "list", "ntuple") or (
                op == "const" and isinstance(cval(b), (str, tuple))):
            items = self.static_items(b)
            if i.op == "const" and isinstance(cval(i), int):
                if items is not None:
                    if -len(items) <= cval(i) < len(items):
                        return self.cur(items[cval(i)])
                    self.do_raise("IndexError", NONE)
                if op == "list" and cval(i) >= 0:
                    pre = b.args[:cval(i) + 1]
                    if len(pre) == cval(i) + 1 and not any(
                            x.op in ("mapseg", "condseg", "museg")
                            for x in pre):
                        return self.cur(pre[-1])
            if i.op == "slice" and items is not None and all(
                    x.op == "const" for x in i.args):
                sl = slice(*[cval(x) for x in i.args])
                sub = items[sl]
                if op == "const":
                    return const(cval(b)[sl])
                return self.mk("list" if op == "list" else "tuple", sub)
            if op == "list" and i.op == "slice" and is_none(i.args[0]) and \
                    is_none(i.args[1]) and is_const(i.args[2], -1):
                return self.mk("reversed", (b,))
            self.mayraise.add("IndexError")
            return self.mk("item", (b, i))
        if op == "dict":
            if any(k.op == "dstar" for k, _ in b.args):
                return self.mk("item", (b, i))
            for k, v in b.args:
                if k.k == i.k:
                    return self.cur(v)
            if i.op == "const" and all(k.op == "const" for k, _ in b.args):
                self.do_raise("KeyError", NONE)
            if all(k.op == "const" for k, _ in b.args) and b.args and \
                    len(b.args) <= 8:
                # symbolic key: gated selection over the table
                r = None
                for k, v in reversed(b.args):
                    c = self.truth(self.compare(ast.Eq(), i, k))
                    d = self.decide(c)
                    if d is True:
                        return self.cur(v)
                    if d is False:
                        continue
                    r = self.cur(v) if r is None else self.mkphi(
                        c, self.cur(v), r)
                self.mayraise.add("KeyError")
                if r is None:
                    self.do_raise("KeyError", NONE)
                return r
            self.mayraise.add("KeyError")
            return self.mk("item", (b, i))
        if op == "update":
            base, idx, val = b.args
            if idx.k == i.k:
                return self.cur(val)
            if idx.op == "const" and i.op == "const" and isinstance(
                    cval(i), str):
                return self.getitem(base, i)
            return self.mk("item", (b, i))
        if op == "setattr":
            return self.getitem(b.args[0], i)
        if op == "updmany":
            d = b.args[1]
            if d.op == "dict":
                for k, v in d.args:
                    if k.k == i.k:
                        return self.cur(v)
                if i.op == "const" and all(k.op == "const"
                                           for k, _ in d.args):
                    return self.getitem(b.args[0], i)
            return self.mk("item", (b, i))
        if op == "inst":
            m = self.class_member(b.meta[0], "__getitem__")
            if m is not None:
                return self.call(N("bound", (b, m)), [i], {})
        if op == "in" and self.tyof(b).get("cls") is not None:
            m = self.class_member(self.tyof(b)["cls"], "__getitem__")
            if m is not None:
                return self.call(N("bound", (b, m)), [i], {})
        if op == "reversed" and i.op == "const" and cval(i) in (0, -1):
            return self.getitem(b.args[0], const(-1 - cval(i)))
        t = self.tyof(b)
        if is_table(b, t):
            self.need_key(b, i)
        else:
            self.mayraise.update(("KeyError", "IndexError", "TypeError"))
        if t.get("kind") == "dict" or (b.op == "in" and b.meta[0].startswith(
                "global:")):
            self.effect("getitem", b, "item", (i,))
        if i.op == "const" and isinstance(cval(i), int) and op == "m:walk":
            pass
        if i.op == "tuple" and lib.is_full_index(i):
            return b
        return self.mk("item", (b, i))

    def need_key(self, b, key):
        """b[key] of a module-level table: KeyError unless key is in it."""
        c = self.compare(ast.In(), key, b)
        d = self.decide(c)
        if d is True:
            return
        if d is False:
            self.do_raise("KeyError", NONE)
        base = self.st
        self.st = base.copy()
        self.assume(c, False)
        try:
            self.do_raise("KeyError", NONE)
        except Dead:
            pass
        self.st = base
        self.assume(c, True)

    # comprehensions
    def e_ListComp(self, e):
        return self.mk("list", self._comp(e.generators, lambda: self.ev(e.elt)))

    def e_SetComp(self, e):
        r = self._comp(e.generators, lambda: self.ev(e.elt))
        return self.mk("set", r)

    def e_GeneratorExp(self, e):
        return self.mk("list", self._comp(e.generators, lambda: self.ev(e.elt)))

    def e_DictComp(self, e):
        r = self._comp(e.generators, lambda: N("tuple", [
            self.ev(e.key), self.ev(e.value)]))
        if all(x.op == "tuple" for x in r):
            return self.mk("dict", [(x.args[0], x.args[1]) for x in r])
        return self.mk("dictcomp", r)

    def _comp(self, gens, elt):
        env = self.env()
        names = set()
        for g in gens:
            names |= _names(g.target)
        saved = {n: env.get(n) for n in names}

        def go(i):
            """list of segment nodes"""
            if i == len(gens):
                return [elt()]
            g = gens[i]
            out = []
            for sg in self.segments(self.ev(g.iter)):
                cond = TRUE
                if sg[0] == "item":
                    v = sg[1]
                elif sg[0] == "cond":
                    cond, v = sg[1], sg[2]
                else:
                    v, cond = sg[2], sg[3]
                base = self.st
                self.st = base.copy()
                if sg[0] == "map":
                    self.active_iters[sg[1].k] = self.active_iters.get(
                        sg[1].k, 0) + 1
                    self.st.pc = self.st.pc + (
                        (N("inloop", (sg[1],)), True),)
                dead = False
                try:
                    if cond.op != "const":
                        self.assume(cond, True)
                    self.assign(g.target, v)
                    for t in g.ifs:
                        c = self.truth(self.ev(t))
                        d = self.decide(c)
                        if d is False:
                            cond = FALSE
                            break
                        if d is None:
                            cond = self.andc(cond, c)
                            self.assume(c, True)
                    sub = go(i + 1) if not is_const(cond, False) else []
                except Dead:
                    sub, dead = [], True
                finally:
                    if sg[0] == "map":
                        self.active_iters[sg[1].k] -= 1
                end = self.st
                self.st = base
                # heap effects inside comprehensions: keep latest contents
                for u, x in end.upd.items():
                    if base.upd.get(u) is not x:
                        self.st.upd[u] = x
                for fid, ee in end.envs.items():
                    if fid not in self.st.envs:
                        self.st.envs[fid] = ee
                if dead:
                    if sg[0] == "item":
                        raise Dead()
                    continue
                for x in sub:
                    if sg[0] == "item":
                        out.append(x if cond.op == "const" else
                                   self._guardseg(cond, x))
                    elif sg[0] == "cond":
                        out.append(self._guardseg(cond, x))
                    elif x.op in ("mapseg", "condseg"):
                        out.append(N("mapseg", (sg[1], N("multi", (x,)),
                                                cond), loc=self.loc))
                    else:
                        out.append(N("mapseg", (sg[1], x, cond),
                                     loc=self.loc))
            return out

        r = go(0)
        env = self.env()
        for n, v in saved.items():
            if v is None:
                env.pop(n, None)
            else:
                env[n] = v
        return r

    def e_Yield(self, e):
        v = NONE if e.value is None else self.ev(e.value)
        fr = self.frames[-1]
        y = self.st.envs[fr.fid].get("__yields")
        if y is None:
            y = N("list", ())
            self.st.envs[fr.fid]["__yields"] = y
        y = self.cur(y)
        self.set_content(y, N("list", y.args + (v,), uid=y.uid))
        return NONE

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        fr = self.frames[-1]
        y = self.st.envs[fr.fid].get("__yields")
        if y is None:
            y = N("list", ())
            self.st.envs[fr.fid]["__yields"] = y
        y = self.cur(y)
        segs = []
        for sg in self.segments(v):
            if sg[0] == "item":
                segs.append(sg[1])
            elif sg[0] == "cond":
                segs.append(N("condseg", (sg[1], sg[2])))
            else:
                segs.append(N("mapseg", (sg[1], sg[2], sg[3])))
        self.set_content(y, N("list", y.args + tuple(segs), uid=y.uid))
        return NONE

    def e_Await(self, e):
        return self.ev(e.value)

    # --------------------------------------------------------------- calls
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and \
                "super" not in self.env():
            fr = self.frames[-1]
            inst = next((self.st.envs[fr.fid][a.arg] for a in
                         fr.fi.node.args.args[:1]), NONE)
            ci = fr.cls
            if ci is None:
                return self.unknown("super() outside class")
            return N("super", (self.cur(inst),), (self.p.classes.get(
                ci.qualname, ci),))
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                items = self.static_items(v)
                if items is not None:
                    args += items
                else:
                    args.append(N("star", (v,)))
            else:
                args.append(self.ev(a))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if v.op == "dict" and all(kk.op == "const" for kk, _ in
                                          v.args):
                    for kk, vv in v.args:
                        kwargs[cval(kk)] = vv
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        # arguments may have been updated by later argument evaluation
        args = [self.cur(a) for a in args]
        self.loc = self.here(e)
        self.call_sites.add((self.loc.file, self.loc.line, self.loc.func)
                            if self.loc else None)
        return self.call(f, args, kwargs, e)

    def call(self, f, args, kwargs, node=None):
        self.tick()
        f = self.cur(f)
        op = f.op
        if op == "func":
            return self.call_func(f, args, kwargs)
        if op == "deco":
            return self.call(f.args[0], args, kwargs, node)
        if op == "bound":
            inner = f.args[1]
            return self.call(inner, [self.cur(f.args[0])] + list(args),
                             kwargs, node)
        if op == "decorated":
            r = self.call(f.args[0], args, kwargs, node)
            self.effect("decorated_call", f, f.meta, tuple(args), extra=r)
            return r
        if op == "class":
            return self.instantiate(f, args, kwargs)
        if op == "ntclass":
            name, flds = f.meta
            vals = list(args)
            for fl in flds[len(vals):]:
                if fl in kwargs:
                    vals.append(kwargs[fl])
                else:
                    return self.unknown("namedtuple construction")
            return self.mk("ntuple", vals, f.meta)
        if op == "partial":
            pa, pk = f.args[1:], dict(f.meta)
            pk = dict(pk)
            pk.update(kwargs)
            return self.call(f.args[0], list(pa) + list(args), pk, node)
        if op == "phi" and all(x.op == "attr" and x.meta == f.args[1].meta
                               for x in f.args[1:]):
            # the same library method of alternative receivers
            return lib.method(self, self.mkphi(
                f.args[0], f.args[1].args[0], f.args[2].args[0]),
                f.args[1].meta, args, kwargs)
        if op == "phi" and any(x.op in ("func", "bound", "partial", "deco",
                                        "class", "extern", "phi",
                                        "decorated", "method")
                               for x in f.args[1:]):
            return self.branch(f.args[0],
                               lambda: self.call(f.args[1], args, kwargs,
                                                 node),
                               lambda: self.call(f.args[2], args, kwargs,
                                                 node))
        if op == "extern":
            if f.meta in self.extern_hooks:
                r = self.extern_hooks[f.meta](self, args, kwargs)
                if r is not NotImplemented:
                    return r
            if f.meta.rsplit(".", 1)[0] in lib.OWNERS and args and \
                    f.meta.rsplit(".", 1)[1] not in (
                        "fromkeys", "maketrans", "from_dict",
                        "from_series", "from_dataframe"):
                # a method taken from its class
                return self.call(N("method", (args[0],),
                                   f.meta.rsplit(".", 1)[1], loc=self.loc),
                                 args[1:], kwargs, node)
            if f.meta in lib.STATIC:
                return self.call(N("method", (N(f.meta.rsplit(".", 1)[0], (),
                                                loc=self.loc),),
                                   f.meta.rsplit(".", 1)[1], loc=self.loc),
                                 args, kwargs, node)
            r = lib.call(self, f.meta, args, kwargs)
            return r
        if op in ("method", "attr") and f.meta in self.method_hooks:
            r = self.method_hooks[f.meta](self, [f.args[0]] + list(args),
                                          kwargs)
            if r is not NotImplemented:
                return r
        if op == "method":
            return lib.method(self, f.args[0], f.meta, args, kwargs)
        if op == "attr":
            return lib.method(self, f.args[0], f.meta, args, kwargs)
        if op == "inst":
            m = self.class_member(f.meta[0], "__call__")
            if m is not None:
                return self.call(N("bound", (f, m)), args, kwargs, node)
        if op in ("scipy.interpolate.interp1d",):
            r = self.mk("applied", (f,) + tuple(args))
            self.calls.append(("applied", r, self.loc, tuple(self.stack),
                               self.st.pc))
            return r
        if op.startswith(("xarray.register", "functools.wraps")):
            return args[0] if args else NONE
        self.mayraise.add("*")
        ks = sorted(kwargs)
        r = self.mk("apply", (f,) + tuple(args) + tuple(
            kwargs[k] for k in ks), tuple(ks) or None)
        self.calls.append(("apply", r, self.loc, tuple(self.stack),
                           self.st.pc))
        return r

    def instantiate(self, cn, args, kwargs):
        ci = self.p.classes.get(cn.meta.qualname, cn.meta)
        # exception classes and externals
        if self.class_member(ci, "_make") is not None:
            pass
        if any(b.op == "extern" and b.meta == "typing.NamedTuple"
               for b in ci.bases):
            flds = tuple(b.target.id for b in ci.node.body
                         if isinstance(b, ast.AnnAssign))
            vals = list(args)
            for fl in flds[len(vals):]:
                if fl in kwargs:
                    vals.append(kwargs[fl])
                elif fl in ci.members:
                    vals.append(ci.members[fl])
                else:
                    return self.unknown("namedtuple construction")
            return self.mk("ntuple", vals, (ci.name, flds))
        init = self.class_member(ci, "__init__")
        if init is None and any(
                "dataclass" in ast.dump(d) for d in ci.node.decorator_list):
            flds = [b.target.id for b in ci.node.body
                    if isinstance(b, ast.AnnAssign)]
            inst = N("inst", (), (ci,), loc=self.loc)
            d = []
            vals = list(args)
            for j, fl in enumerate(flds):
                if j < len(vals):
                    d.append((fl, vals[j]))
                elif fl in kwargs:
                    d.append((fl, kwargs[fl]))
                elif fl in ci.members:
                    d.append((fl, ci.members[fl]))
            inst = N("inst", tuple(d), (ci,), uid=inst.uid, loc=self.loc)
            return inst
        inst = N("inst", (), (ci,), loc=self.loc)
        self.orig[inst.uid] = inst
        self.effect("new", inst, ci.name, tuple(args))
        new = self.class_member(ci, "__new__")
        if init is not None:
            self.call(N("bound", (inst, init)), args, kwargs)
        return self.cur(inst)

    def call_func(self, fn, args, kwargs):
        fi, clo, defaults, kwd, cls = fn.meta
        if fi.qualname in self.overrides:
            r = self.overrides[fi.qualname](self, args, kwargs)
            if r is not NotImplemented:
                return r
        if len(self.stack) > MAX_DEPTH or sum(
                1 for s in self.stack if s[0] == fi.qualname) > 1:
            r = self.mk("rec", tuple(args), fi.qualname)
            self.unknowns.append(("recursion " + fi.qualname, self.loc))
            return r
        fr = Frame(fi, fi.module, clo, cls or fi.cls)
        env = {}
        callloc = self.loc
        self.bind_args(fi, fi.node.args, args, kwargs, defaults, kwd, env)
        self.funcs_entered.add(fi.qualname)
        self.stack.append((fi.qualname, callloc))
        self.frames.append(fr)
        self.st.envs[fr.fid] = env
        self.effect("enter_func", None, fi.qualname, tuple(args))
        base_pc = self.st.pc
        saved_loops = None
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.ev(fi.node.body)
                outs = [(self.st, v)]
            else:
                live = self.exec_block(fi.node.body)
                outs = list(fr.returns)
                if live:
                    outs.append((self.st, NONE))
            if not outs:
                raise Dead()
            outs2 = []
            for s, v in outs:
                outs2.append((s, v))
            if len(outs2) == 1:
                st, v = outs2[0]
            else:
                st, v = self.tree_merge(outs2, len(base_pc))
                st.pc = base_pc
            self.st = st
            y = st.envs.get(fr.fid, {}).get("__yields")
            if y is not None:
                v = self.cur(y)
            if not (len(outs2) == 1):
                pass
        finally:
            self.frames.pop()
            self.stack.pop()
            self.loc = callloc
        # Keep guards established by the callee (validation) but drop loop
        # literals that belong to the callee.
        if len(outs2) == 1:
            extra = tuple(x for x in self.st.pc[len(base_pc):]
                          if x[0].op != "inloop")
            self.st.pc = base_pc + extra
        # environment of the callee stays only if closures may need it
        e = self.st.envs.get(fr.fid)
        if e is not None and not any(x.op in ("func", "deco", "decorated")
                                     and not isinstance(x, str)
                                     for x in e.values()):
            if not _captures(fi):
                self.st.envs.pop(fr.fid, None)
        return self.cur(v)

    def bind_args(self, fi, a, args, kwargs, defaults, kwd, env):
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        kwargs = dict(kwargs)
        vals = {}
        i = 0
        rest = []
        for v in args:
            if v.op == "star":
                src = v.args[0]
                remaining = [p for p in pos[i:]
                             if p not in kwargs and p not in vals]
                if a.vararg and not remaining:
                    rest.append(v)
                    continue
                # unknown-length splat: as many as parameters remain
                ndef = len(pos) - len(defaults)
                for j, p in enumerate(remaining):
                    vals[p] = self.getitem(src, const(j))
                    i += 1
                if a.vararg:
                    rest.append(v)
                continue
            if i < len(pos):
                vals[pos[i]] = v
                i += 1
            else:
                rest.append(v)
        if rest and not a.vararg:
            self.effect("bad_call", None, f"too many arguments for {fi.name}")
            self.do_raise("TypeError", NONE)
        dstar = kwargs.pop("**", None)
        extra = {}
        for k, v in kwargs.items():
            if k in pos or k in kwonly:
                if k in vals:
                    self.effect("bad_call", None,
                                f"multiple values for {k} of {fi.name}")
                    self.do_raise("TypeError", NONE)
                vals[k] = v
            else:
                extra[k] = v
        if extra and not a.kwarg:
            self.effect("bad_call", None,
                        f"unexpected argument {sorted(extra)} for {fi.name}")
            self.do_raise("TypeError", NONE)
        nd = len(pos) - len(defaults)
        for j, p in enumerate(pos):
            if p in vals:
                env[p] = vals[p]
            elif dstar is not None:
                env[p] = self.getitem(dstar, const(p))
            elif j >= nd:
                env[p] = defaults[j - nd]
            else:
                self.effect("bad_call", None, f"missing {p} for {fi.name}")
                self.do_raise("TypeError", NONE)
        for j, p in enumerate(kwonly):
            if p in vals:
                env[p] = vals[p]
            elif kwd[j] is not None:
                env[p] = kwd[j]
            else:
                env[p] = self.unknown("missing kwonly " + p)
        if a.vararg:
            out = []
            mixed = False
            for v in rest:
                if v.op == "star":
                    mixed = True
                    for sg in self.segments(v.args[0]):
                        out.append(sg[1] if sg[0] == "item" else
                                   N("mapseg", sg[1:]) if sg[0] == "map" else
                                   N("condseg", sg[1:]))
                else:
                    out.append(v)
            env[a.vararg.arg] = N("list" if mixed else "tuple", out)
        if a.kwarg:
            items = [(const(k), v) for k, v in extra.items()]
            if dstar is not None:
                items.append((N("dstar"), dstar))
            env[a.kwarg.arg] = N("dict", items)

    # ------------------------------------------------------------ entry API
    def lookup(self, qualname):
        """The value bound to a public qualified name."""
        parts = qualname.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.p.modules:
                v = N("module", (), m)
                for q in parts[i:]:
                    if v.op == "class":
                        mem = self.class_member(v.meta, q)
                        if mem is None:
                            raise AnalysisError(f"{qualname} not found")
                        v = mem
                    elif v.op == "module":
                        env = self.st.envs.get("mod:" + v.meta, {})
                        if q not in env:
                            raise AnalysisError(f"{qualname} not found")
                        v = env[q]
                    else:
                        raise AnalysisError(f"{qualname} not found")
                return v
        raise AnalysisError(f"{qualname} not found")


def _copy_ci(ci):
    return ci


def _names(t):
    out = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Name):
            out.add(n.id)
    return out


def _existed(pre, uid):
    for e in pre.envs.values():
        for v in e.values():
            if v.uid == uid:
                return True
    for v in pre.upd.values():
        if v.op == "inst":
            for _, x in v.args:
                if x.uid == uid:
                    return True
        else:
            for x in v.args:
                if isinstance(x, N) and x.uid == uid:
                    return True
    return _deep(pre, uid)


def _deep(pre, uid):
    seen = set()
    st = [v for f, e in pre.envs.items() if not isinstance(f, str)
          for v in e.values()] + list(pre.upd.values())
    while st:
        x = st.pop()
        if x.uid == uid:
            return True
        if id(x) in seen:
            continue
        seen.add(id(x))
        for a in x.args:
            if isinstance(a, N):
                st.append(a)
            elif isinstance(a, tuple):
                st += [y for y in a if isinstance(y, N)]
    return False


def _captures(fi):
    c = getattr(fi, "_caps", None)
    if c is None:
        c = any(isinstance(x, (ast.Lambda, ast.FunctionDef))
                for b in (fi.node.body if isinstance(fi.node.body, list)
                          else [fi.node.body])
                for x in ast.walk(b))
        fi._caps = c
    return c


def replace(n, old, new):
    """n with the element of `old` replaced by `new`."""
    if n.op == "elem" and n.args[0].k == old.k:
        return new
    ch = False
    args = []
    for a in n.args:
        if isinstance(a, N):
            b = replace(a, old, new)
            ch = ch or b is not a
            args.append(b)
        elif isinstance(a, tuple):
            b = tuple(replace(x, old, new) if isinstance(x, N) else x
                      for x in a)
            ch = ch or any(x is not y for x, y in zip(a, b))
            args.append(b)
        else:
            args.append(a)
    return N(n.op, args, n.meta, loc=n.loc) if ch else n


def subst_elem(n, old, new):
    if n.op == "elem" and n.args[0].k == old.k:
        return N("elem", (new,), n.meta, loc=n.loc)
    ch = False
    args = []
    for a in n.args:
        if isinstance(a, N):
            b = subst_elem(a, old, new)
            ch = ch or b is not a
            args.append(b)
        else:
            args.append(a)
    return N(n.op, args, n.meta, loc=n.loc) if ch else n


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
       ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<",
       ast.RShift: ">>"}
FOLD = {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
        "*": lambda a, b: a * b, "/": lambda a, b: a / b,
        "//": lambda a, b: a // b, "%": lambda a, b: a % b,
        "**": lambda a, b: a ** b, "&": lambda a, b: a & b,
        "|": lambda a, b: a | b}
CMP = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b,
       ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b,
       ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}

def is_table(b, t):
    """A module-level dict that the package itself fills."""
    return b.op == "in" and b.meta[0].startswith("global:") and \
        t.get("kind") == "dict"


_EXC = {"KeyError": ("LookupError",), "IndexError": ("LookupError",),
        "ModuleNotFoundError": ("ImportError",),
        "NotImplementedError": ("RuntimeError",),
        "UnboundLocalError": ("NameError",)}


def exc_match(name, handler):
    if name == "*":
        return True
    for h in handler:
        if h in ("BaseException", "Exception"):
            return True
        if h == name or h in _EXC.get(name, ()):
            return True
    return False
