"""C16: what is not required is not needed."""
import ast
import os
import re
import sys

from ..ctx import PKG, N, cval, show, sym
from ..ir import walk
from ..program import _assigned_names
from ..interp import exc_match
from . import entries as E

IMP = "import"
LAZY = "lazy"
STUB = "named"
ORDER = "order"
# distribution -> modules it provides
PROVIDES = {"numpy": {"numpy"}, "numpy-quaternion": {"quaternion"},
            "scipy": {"scipy"}, "anytree": {"anytree"}}
# the optional package that a module stands for
NEEDS = {"accessors": {"xarray", "pandas"},
         "plotting": {"matplotlib", "mpl_toolkits"}}


def required(ctx):
    """Modules of the required dependencies in pyproject.toml."""
    path = os.path.join(ctx.p.repo, "pyproject.toml")
    deps = None
    if os.path.exists(path):
        try:
            import tomllib
            with open(path, "rb") as f:
                deps = tomllib.load(f).get("project", {}).get("dependencies")
        except (ImportError, ValueError):
            deps = None
    if deps is None:
        return set().union(*PROVIDES.values()), "documented"
    out = set()
    for d in deps:
        nm = re.split(r"[\s<>=!~;\[]", d.strip())[0].lower()
        out |= PROVIDES.get(nm, {nm.replace("-", "_")})
    return out, "pyproject.toml"


def check(ctx, rep):
    req, src = required(ctx)
    rep.rule(IMP, "no module executed by importing the package, nor a "
                  "function it calls meanwhile, imports anything but the "
                  f"standard library, the package and {sorted(req)} ({src}), "
                  "except in a try whose handler takes ImportError and goes "
                  "on")
    rep.rule(LAZY, "no function given arrays reaches such an import")
    rep.rule(STUB, "without the optional package a function that needs it "
                   "raises ImportError when it is called")
    rep.rule(ORDER, "PyKDL is imported before anything that imports "
                    "matplotlib")
    W = Walk(ctx, rep, req)
    W.load(PKG)
    imports(ctx, rep, W)
    lazy(ctx, rep, req)
    stubs(ctx, rep, W)
    asked(ctx, rep)


# ---------------------------------------------------------- module closure
class Walk:
    """Follows import statements in the order of their execution."""

    def __init__(self, ctx, rep, req):
        self.ctx, self.rep, self.p = ctx, rep, ctx.p
        self.req = req
        self.done = {}      # module -> only under guards so far
        self.order = []     # (top-level name, full name, guarded, loc)
        self.unknown = []
        self.funcs = set()

    def load(self, name, guarded=False):
        # an import that failed under a guard is tried again
        if name not in self.p.modules or not self.done.get(name, True) or \
                guarded and name in self.done:
            return
        self.done[name] = guarded
        if "." in name:
            self.load(name.rsplit(".", 1)[0], guarded)
        self.mod = self.p.modules[name]
        m = self.mod
        self.block(m.tree.body, m, guarded)

    def loc(self, m, s):
        return f"{m.path}:{s.lineno} " \
            f"({m.name})"

    def block(self, body, m, g):
        for s in body:
            self.stmt(s, m, g)

    def stmt(self, s, m, g):
        if isinstance(s, ast.Import):
            for a in s.names:
                self.imported(a.name, g, m, s)
        elif isinstance(s, ast.ImportFrom):
            mod = resolve(m, s)
            self.imported(mod, g, m, s)
            if mod in self.p.modules:
                for a in s.names:
                    sub = mod + "." + a.name
                    if sub in self.p.modules:
                        self.load(sub, g)
        elif isinstance(s, ast.Try):
            h = any(takes(x, m) and goes_on(x) for x in s.handlers)
            self.block(s.body, m, g or h)
            for x in s.handlers:
                self.block(x.body, m, g)
            self.block(s.orelse, m, g)
            self.block(s.finalbody, m, g)
        elif isinstance(s, ast.If):
            t = ast.unparse(s.test)
            if t in ("TYPE_CHECKING", "typing.TYPE_CHECKING", "False"):
                self.block(s.orelse, m, g)
                return
            if re.fullmatch(r"__name__ == ['\"]__main__['\"]", t):
                self.block(s.orelse, m, g)
                return
            self.calls(s.test, m, g)
            before = len(self.order)
            self.block(s.body, m, g)
            self.block(s.orelse, m, g)
            if len(self.order) > before and "find_spec" in t:
                self.unknown.append(self.loc(m, s))
        elif isinstance(s, (ast.For, ast.While, ast.With)):
            sup = isinstance(s, ast.With) and any(
                "suppress" in ast.unparse(i.context_expr) and re.search(
                    r"ImportError|ModuleNotFoundError|Exception",
                    ast.unparse(i.context_expr)) for i in s.items)
            self.block(s.body, m, g or sup)
            self.block(getattr(s, "orelse", []), m, g)
        elif isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases:
                self.calls(d, m, g)
            self.block(s.body, m, g)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list:
                self.calls(d, m, g, deco=True)
            for d in s.args.defaults + s.args.kw_defaults:
                if d is not None:
                    self.calls(d, m, g)
        else:
            self.calls(s, m, g)

    def imported(self, name, g, m, s):
        top = name.split(".")[0]
        if top == PKG:
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                self.load(".".join(parts[:i]), g)
            return
        self.order.append((top, name, g, self.loc(m, s)))

    def calls(self, e, m, g, deco=False):
        """Functions of the package called while a module is executed."""
        todo = [e] if deco and not isinstance(e, ast.Call) else []
        for c in ast.walk(e):
            if isinstance(c, (ast.Lambda,)):
                continue
            if isinstance(c, ast.Call):
                todo.append(c.func)
        for f in todo:
            t = ast.unparse(f)
            if t in ("__import__", "importlib.import_module",
                     "import_module"):
                self.unknown.append(self.loc(m, e))
                continue
            for q in (f"{m.name}.{t}", f"{m.name}.{t}.__init__"):
                fi = self.p.funcs.get(q)
                if fi is None and "." not in t:
                    fi = self.lookup(m, t)
                if fi is not None and fi.qualname not in self.funcs and \
                        hasattr(fi.node, "body") and isinstance(
                            fi.node.body, list):
                    self.funcs.add(fi.qualname)
                    self.rep.count("functions called on import")
                    self.block(fi.node.body, fi.module, g)

    def lookup(self, m, name):
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if (a.asname or a.name) == name:
                        return self.p.funcs.get(
                            f"{resolve(m, s)}.{a.name}")
        return None


def resolve(m, s):
    if not s.level:
        return s.module
    base = m.name.split(".")
    base = base[:len(base) - s.level + (1 if m.is_pkg else 0)]
    return ".".join(base + ([s.module] if s.module else []))


def takes(h, m):
    """Does the handler take a missing module?"""
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    for t in ts:
        nm = ast.unparse(t).rsplit(".", 1)[-1]
        if nm in ("ImportError", "ModuleNotFoundError", "Exception",
                  "BaseException"):
            return True
        # a tuple of exceptions bound in the module
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and any(
                    isinstance(x, ast.Name) and x.id == nm
                    for x in s.targets) and re.search(
                        r"\b(ImportError|ModuleNotFoundError|Exception)\b",
                        ast.unparse(s.value)):
                return True
    return False


def goes_on(h):
    """The handler does not always raise."""
    return not any(isinstance(s, ast.Raise) for s in h.body)


def imports(ctx, rep, W):
    ok = W.req | set(sys.stdlib_module_names) | {"__future__"}
    for top, name, g, loc in W.order:
        con = f"import of {name}"
        if top in ok:
            rep.ok(IMP, con, "standard library or required")
        elif g:
            of = next((v for k, v in NEEDS.items() if f"({PKG}.{k})" in loc),
                      None)
            rep.check(True if of is None or top in of else False, IMP, con,
                      "guarded" if of is None or top in of else
                      f"what needs {min(of)} is missing without {top}", loc)
        else:
            rep.bad(IMP, con, f"{top} is not required and its absence is "
                    "not handled", loc)
    for loc in W.unknown:
        rep.unknown(IMP, "import by name", "", loc)
    rep.count("modules", len(W.done))
    rep.count("module-level imports", len(W.order))
    # order of PyKDL
    tops = [t for t, *_ in W.order]
    if "PyKDL" in tops:
        first = [i for i, t in enumerate(tops) if t in (
            "matplotlib", "mpl_toolkits", "pylab")]
        k = tops.index("PyKDL")
        rep.check(not first or k < first[0], ORDER, "PyKDL before matplotlib",
                  "imported after " + W.order[first[0]][1]
                  if first and k > first[0] else "", W.order[k][3])
    else:
        rep.check(False, ORDER, "PyKDL before matplotlib",
                  "not imported at all", None)


# ------------------------------------------------------------- array paths
FLAGS = {"as_dataset", "as_dataarray", "dim", "import_format"}


def lazy(ctx, rep, req):
    I = ctx.interp()
    ok = req | set(sys.stdlib_module_names) | {PKG, "__future__"}
    es = E.functions(ctx, I)
    es += E.module_functions(ctx, I, ["utils", "core", "estimators",
                                      "coordinate_systems",
                                      "reference_frames"])
    seen = set()
    C = ctx.C
    for e in E.methods(ctx, I, C, make=lambda J: ctx.frame("self"),
                       skip={x for x in ("from_dataset", "from_dataarray")}):
        es.append(e)
    for e in es:
        if e.fi.qualname in seen or e.fi.qualname.endswith(
                ("from_dataset", "from_dataarray")):
            continue
        seen.add(e.fi.qualname)
        for which in (0, 1):
            one(ctx, rep, e, which, ok)


def one(ctx, rep, e, which, ok):
    con = f"{e.label}({'all' if which else 'required'} arguments)"

    def go():
        ps, rq = E.params(e.fi)
        kw = {}
        for p in ps:
            if p in ("self", "cls"):
                continue
            if p in FLAGS or not which and p not in rq:
                continue
            if p == "what":
                continue
            if E.is_data(e.fi, p) and p not in ("coords",):
                kw[p] = sym("arg:" + p, kind="ndarray", nonnull=True)
            elif p in rq:
                kw[p] = sym("arg:" + p, nonnull=True)
        I = ctx.interp()
        log = []
        orig = I.effect

        def effect(kind, *a, **k):
            if kind == "import":
                log.append((a[1], I.st.pc, I.loc, caught(I.try_stack)))
            return orig(kind, *a, **k)
        I.effect = effect
        f = e.get(I)
        log.clear()
        I.raises = []
        try:
            ctx.run(I, f, [], kw)
        finally:
            rep.seen(I)
        bad = [x for x in log if x[0].split(".")[0] not in ok
               and not x[3]]
        # what only happens to values of unknown type is left open
        sure = [x for x in bad if not any(
            y.op in ("hasattr", "isinst") for q, _ in x[1] for y in walk(q))]
        bad = sure or bad
        rep.check(False if sure else None if bad else True, LAZY, con,
                  f"imports {bad[0][0]}" if bad else "",
                  bad[0][2] if bad else None)
    ctx.guarded(LAZY, con, go)


def caught(stack):
    return any(exc_match("ImportError", h) for tr in stack
               for h in tr["handlers"])


# ------------------------------------------------- absence of an optional one
def own_nodes(fi):
    """Statements of a function without those of nested functions."""
    todo = list(fi.node.body) if isinstance(fi.node.body, list) else []
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.ClassDef, ast.Lambda)):
            todo += ast.iter_child_nodes(n)


def external(s, m, ok):
    """Top-level name of the optional package a statement imports."""
    if isinstance(s, ast.Import):
        t = [a.name.split(".")[0] for a in s.names]
    elif isinstance(s, ast.ImportFrom):
        t = [resolve(m, s).split(".")[0]]
    else:
        return None
    t = [x for x in t if x not in ok]
    return t[0] if t else None


def binds(body):
    return _assigned_names(ast.Module(body=body, type_ignores=[]))


def asked(ctx, rep):
    """try: import X except ImportError: ... in functions"""
    ok = set(sys.stdlib_module_names) | {PKG, "__future__"} | required(
        ctx)[0]
    for q, fi in sorted(ctx.p.funcs.items()):
        m = fi.module
        if "check_install" in m.name:
            continue
        for t in own_nodes(fi):
            if not isinstance(t, ast.Try):
                continue
            imps = [(s, external(s, m, ok)) for s in t.body]
            imps = [(s, x) for s, x in imps if x]
            hs = [h for h in t.handlers if takes(h, m)]
            if not imps:
                continue
            con = f"{q.replace(PKG + '.', '')}: {imps[0][1]}"
            loc = f"{m.path}:{t.lineno}"
            if not hs:
                rep.bad(STUB, con, "its absence is not handled", loc)
                continue
            for h in hs:
                handler(rep, con, h, t, binds([s for s, _ in imps]), loc)


def handler(rep, con, h, t, names, loc):
    rs = [s for s in ast.walk(ast.Module(body=h.body, type_ignores=[]))
          if isinstance(s, ast.Raise)]
    last = h.body[-1]
    if isinstance(last, ast.Raise):
        for r in rs:
            nm = h.type is not None and "ImportError"
            if r.exc is not None:
                f = r.exc.func if isinstance(r.exc, ast.Call) else r.exc
                nm = ast.unparse(f).rsplit(".", 1)[-1]
                if h.name and nm == h.name:
                    nm = "ImportError"
            v = nm in ("ImportError", "ModuleNotFoundError")
            if not v and nm not in ("RuntimeError", "ValueError",
                                    "KeyError", "TypeError", "Exception",
                                    "AttributeError", "OSError",
                                    "NotImplementedError", "IOError",
                                    "NameError", "Warning"):
                v = None
            rep.check(v, STUB, con, f"raises {nm}", loc)
        return
    if isinstance(last, ast.Return):
        rep.unknown(STUB, con, "returns without the package", loc)
        return
    miss = sorted(n for n in names if n not in binds(h.body))
    rep.check(None if miss else True, STUB, con,
              f"goes on without {', '.join(miss)}" if miss else "", loc)


def stubs(ctx, rep, W):
    """Names a module defines if an import succeeds and if it does not."""
    for name in sorted(W.done):
        m = W.p.modules[name]
        for t in m.tree.body:
            if isinstance(t, ast.Try) and any(takes(h, m)
                                              for h in t.handlers):
                module_try(ctx, rep, m, t)
    con = "plot"

    def go():
        I = ctx.interp()
        env = I.st.envs.get(f"mod:{PKG}.plot", {})
        for nm in ("points", "quaternions", "vectors", "reference_frame"):
            v = env.get(nm)
            if v is None:
                rep.bad(STUB, f"plot.{nm}", "is not defined", None)
                continue
            alts = [v]
            while any(x.op in ("phi", "multi") for x in alts):
                alts = [y for x in alts for y in (
                    x.args[-2:] if x.op == "phi" else x.args
                    if x.op == "multi" else [x])]
            fs = [x.meta[0].qualname.rsplit(".", 1)[1] if x.op == "func"
                  else None for x in alts]
            rep.check(True if f"plot_{nm}" in fs and all(
                f == f"plot_{nm}" or f and not f.startswith("plot_")
                for f in fs) else None if None in fs else False, STUB,
                f"plot.{nm}", ", ".join(map(str, fs)), v.loc)
    ctx.guarded(STUB, con, go)


def module_try(ctx, rep, m, t):
    short = m.name.replace(PKG + ".", "").replace(PKG, "package")
    loc = f"{m.path}:{t.lineno}"
    given = {x.id for s in t.body if isinstance(s, (ast.Assign, ast.AnnAssign))
             for y in (s.targets if isinstance(s, ast.Assign) else [s.target])
             for x in ast.walk(y) if isinstance(x, ast.Name)}
    imported = {(a.asname or a.name).split(".")[0] for s in t.body
                if isinstance(s, (ast.Import, ast.ImportFrom))
                for a in s.names}
    inside = {id(x) for s in t.body + t.orelse for x in ast.walk(s)}
    used = {x.id for x in ast.walk(m.tree) if isinstance(x, ast.Name)
            and isinstance(x.ctx, ast.Load) and id(x) not in inside}
    before = set()
    for s in m.tree.body:
        if s is t:
            break
        before |= binds([s])
    flags = {x.id for x in ast.walk(m.tree) if isinstance(x, ast.If)
             for x in ast.walk(x.test) if isinstance(x, ast.Name)}
    for h in t.handlers:
        if not takes(h, m):
            continue
        if not goes_on(h):
            continue
        here = binds(h.body) | before
        for n in sorted(given - here):
            rep.bad(STUB, f"{short}.{n}", "is not defined without the "
                    "optional package", loc)
        for n in sorted((imported & used) - here):
            rep.check(None if flags & here else False, STUB,
                      f"{short}.{n}", "is used but not defined without the "
                      "optional package", loc)
        for n in sorted(given & here):
            rep.ok(STUB, f"{short}.{n}", "defined")
        fallback(ctx, rep, m, short, h, sorted(given & binds(h.body)), loc)


def fallback(ctx, rep, m, short, h, names, loc):
    """Functions that take the place of missing ones raise ImportError."""
    vals = {}
    for s in h.body:
        if isinstance(s, ast.Assign):
            for y in s.targets:
                for x in ast.walk(y):
                    if isinstance(x, ast.Name):
                        vals[x.id] = s.value
    for n in names:
        v = vals.get(n)
        con = f"{short}.{n} without the optional package"
        if not isinstance(v, ast.Name):
            if isinstance(v, ast.Constant):
                rep.ok(STUB, con, "flag")
            else:
                rep.unknown(STUB, con, "", loc)
            continue

        def go(v=v, con=con):
            I = ctx.interp()
            f = I.st.envs["mod:" + m.name].get(v.id)
            if f is None or f.op != "func":
                rep.unknown(STUB, con, v.id, loc)
                return
            for kw in ({}, {"ax": sym("ax")}):
                I.raises = []
                r = ctx.run(I, f, [sym("a"), sym("b")], dict(kw))
                hows = {str(e.how) for e in I.raises}
                rep.check(r is None and hows <= {"ImportError",
                                                 "ModuleNotFoundError"},
                          STUB, con, "returns" if r is not None else
                          f"raises {sorted(hows)}", loc)
        ctx.guarded(STUB, con, go)
