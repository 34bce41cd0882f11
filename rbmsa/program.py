"""Front end: parses the package sources found in the repository on each run."""
import ast
import os
import warnings

REPO = os.environ.get("RBMSA_REPO", "/repo")
PKG = "rigid_body_motion"


class AnalysisError(Exception):
    """The analysed code no longer offers an anchor the analysis needs."""


class FuncInfo:
    def __init__(self, qualname, node, module, cls=None, parent=None):
        self.qualname = qualname
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.locals = None
        self.is_gen = False

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def __repr__(self):
        return f"<FuncInfo {self.qualname}>"


class ClassInfo:
    def __init__(self, name, qualname, node, module):
        self.name = name
        self.qualname = qualname
        self.node = node
        self.module = module
        self.bases = []      # N nodes
        self.members = {}    # name -> N

    def __repr__(self):
        return f"<ClassInfo {self.qualname}>"


class Module:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.is_pkg = path.endswith("__init__.py")

    def __repr__(self):
        return f"<Module {self.name}>"


def _assigned_names(node):
    """Names bound in a function body (not descending into nested defs)."""
    out, glob = set(), set()

    def targets(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                targets(e)
        elif isinstance(t, ast.Starred):
            targets(t.value)

    def visit(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef,
                               ast.ClassDef)):
                out.add(ch.name)
                continue
            if isinstance(ch, ast.Lambda):
                continue
            if isinstance(ch, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                               ast.DictComp)):
                for g in ast.walk(ch):
                    if isinstance(g, ast.NamedExpr):
                        targets(g.target)
                continue
            if isinstance(ch, ast.Assign):
                for t in ch.targets:
                    targets(t)
            elif isinstance(ch, (ast.AugAssign, ast.AnnAssign, ast.For,
                                 ast.NamedExpr)):
                targets(ch.target)
            elif isinstance(ch, ast.withitem):
                if ch.optional_vars is not None:
                    targets(ch.optional_vars)
            elif isinstance(ch, (ast.Import, ast.ImportFrom)):
                for a in ch.names:
                    out.add((a.asname or a.name).split(".")[0])
            elif isinstance(ch, ast.ExceptHandler):
                if ch.name:
                    out.add(ch.name)
            elif isinstance(ch, ast.Global):
                glob.update(ch.names)
            elif isinstance(ch, ast.Nonlocal):
                glob.update(ch.names)
            visit(ch)

    visit(node)
    return out - glob


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.n_lines = 0
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisError(f"package directory {root} not found")
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    src = fh.read()
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        tree = ast.parse(src, rel)
                    except SyntaxError as e:
                        raise AnalysisError(f"{rel} does not parse: {e}")
                self.n_lines += src.count("\n")
                self.modules[name] = Module(name, rel, tree, src)
        # index of functions (syntactic)
        for m in self.modules.values():
            self._index(m, m.tree.body, m.name, None)

    def _index(self, m, body, prefix, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(f"{prefix}.{n.name}", n, m, cls)
                self.funcs[fi.qualname] = fi
                self._index(m, n.body, f"{prefix}.{n.name}.<locals>", None)
            elif isinstance(n, ast.ClassDef):
                ci = ClassInfo(n.name, f"{prefix}.{n.name}", n, m)
                self.classes[ci.qualname] = ci
                self._index(m, n.body, f"{prefix}.{n.name}", ci)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For,
                                ast.While)):
                for b in ("body", "orelse", "finalbody"):
                    self._index(m, getattr(n, b, []) or [], prefix, cls)
                for h in getattr(n, "handlers", []) or []:
                    self._index(m, h.body, prefix, cls)
