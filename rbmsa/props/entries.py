"""Entry points of the package and their symbolic arguments."""
import ast
import re

from ..ctx import PKG, Dead, N, sym
from ..interp import Budget

DATA_NAMES = {"arr", "q", "v", "v1", "v2", "translation", "rotation",
              "timestamps", "t_in", "t_out", "da", "ds", "mat", "coords",
              "rpy", "roll", "pitch", "yaw", "linear", "angular", "position",
              "orientation", "array", "arrays", "data"}
DATA_DOC = re.compile(r"array|Dataset|DataFrame|\bdict|\blist\b|Mapping", re.I)
NOT_DATA = {"self", "cls", "parent", "ax", "publisher", "fig"}


def params(fi):
    a = fi.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nreq = len(pos) - len(a.defaults)
    kwo = [x.arg for x in a.kwonlyargs]
    req = set(pos[:nreq]) | {
        x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None}
    return pos + kwo, req


def doc_types(fi):
    """Parameter types of a numpy docstring."""
    doc = ast.get_docstring(fi.node) if hasattr(fi.node, "body") else None
    out = {}
    sec = False
    for ln in (doc or "").splitlines():
        if ln.strip() in ("Parameters", "Other Parameters"):
            sec = True
        elif ln.strip() in ("Returns", "Raises", "Examples", "See Also",
                            "Yields", "Notes", "References"):
            sec = False
        m = re.match(r"^([\w, ]+?)\s*:\s*(.+)$", ln)
        if sec and m:
            for p in m[1].split(","):
                out[p.strip()] = m[2]
    return out


def is_data(fi, p):
    if p in NOT_DATA:
        return False
    t = doc_types(fi).get(p)
    if t is not None and DATA_DOC.search(t):
        return True
    return p in DATA_NAMES


class Entry:
    def __init__(self, label, fi, get):
        self.label, self.fi, self.get = label, fi, get

    def __repr__(self):
        return self.label


def functions(ctx, I):
    """Functions exported by the package root."""
    out = []
    for nm, n in sorted(I.st.envs["mod:" + PKG].items()):
        if n.op == "func" and not nm.startswith("_"):
            fi = n.meta[0]
            out.append(Entry(nm, fi, lambda J, nm=nm:
                             J.st.envs["mod:" + PKG][nm]))
    return out


def module_functions(ctx, I, mods):
    out = []
    for md in mods:
        env = I.st.envs.get("mod:" + PKG + "." + md)
        for nm, n in sorted((env or {}).items()):
            if n.op == "func" and not nm.startswith("_") and \
                    n.meta[0].module.name == PKG + "." + md:
                out.append(Entry(f"{md}.{nm}", n.meta[0],
                                 lambda J, md=md, nm=nm:
                                 J.st.envs["mod:" + PKG + "." + md][nm]))
    return out


def class_node(J, ci):
    return J.st.envs["mod:" + ci.module.name][ci.name]


def methods(ctx, I, ci, make=None, skip=()):
    """Public methods of a class; make(J) -> receiver."""
    out = []
    for nm, n in sorted(ci.members.items()):
        m = n
        kind = "method"
        while m.op in ("deco", "decorated") and m.args:
            if m.op == "deco":
                kind = m.meta
            m = m.args[0]
        if m.op != "func" or nm.startswith("_") or nm in skip or \
                kind == "property":
            continue
        fi = m.meta[0]

        def get(J, nm=nm, kind=kind):
            if kind in ("classmethod", "staticmethod"):
                return J.getattr(class_node(J, ci), nm)
            return J.getattr(make(J), nm)
        out.append(Entry(f"{ci.name}.{nm}", fi, get))
    return out


def arguments(fi, which, bound=False):
    """Symbolic keyword arguments: 0 required only, 1 all."""
    ps, req = params(fi)
    if bound or ps[:1] in (["self"], ["cls"]):
        ps = ps[1:]
    return {p: sym("arg:" + p) for p in ps if which or p in req}


def drive(ctx, e, which, extra=None, I=None):
    """(interp, result | None, status) for one abstract call."""
    I = I or ctx.interp()
    f = e.get(I)
    I.effects, I.raises, I.unknowns, I.calls = [], [], [], []
    bound = f.op == "bound" or (f.op == "deco")
    kw = arguments(e.fi, which, bound=False)
    kw.update(extra or {})
    if e.fi.node.args.posonlyargs:
        return I, None, "positional-only"
    status = "ok"
    r = None
    try:
        r = I.call(f, [], kw)
    except Dead:
        status = "raises"
    except Budget:
        status = "budget"
    ctx.rep.seen(I)
    return I, r, status
