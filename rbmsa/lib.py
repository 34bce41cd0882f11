"""Models of the libraries the analysed package uses.

Only structure is modelled here (signatures, which operations return views,
container behaviour, constant folding).  What an operation *means* for a
property is defined in the property's own inference rules.
"""
from .ir import FALSE, NONE, TRUE, N, const, cval, is_const, is_none

REQ = object()

SIG = {
    "numpy.swapaxes": [("a", REQ), ("axis1", REQ), ("axis2", REQ)],
    "numpy.moveaxis": [("a", REQ), ("source", REQ), ("destination", REQ)],
    "numpy.transpose": [("a", REQ), ("axes", None)],
    "numpy.reshape": [("a", REQ), ("shape", REQ), ("order", "C")],
    "numpy.expand_dims": [("a", REQ), ("axis", REQ)],
    "numpy.squeeze": [("a", REQ), ("axis", None)],
    "numpy.tile": [("A", REQ), ("reps", REQ)],
    "numpy.repeat": [("a", REQ), ("repeats", REQ), ("axis", None)],
    "numpy.broadcast_to": [("array", REQ), ("shape", REQ), ("subok", False)],
    "numpy.cross": [("a", REQ), ("b", REQ), ("axisa", -1), ("axisb", -1),
                    ("axisc", -1), ("axis", None)],
    "numpy.linalg.norm": [("x", REQ), ("ord", None), ("axis", None),
                          ("keepdims", False)],
    "numpy.stack": [("arrays", REQ), ("axis", 0), ("out", None)],
    "numpy.concatenate": [("arrays", REQ), ("axis", 0), ("out", None)],
    "numpy.hstack": [("tup", REQ)],
    "numpy.vstack": [("tup", REQ)],
    "numpy.take": [("a", REQ), ("indices", REQ), ("axis", None),
                   ("out", None), ("mode", "raise")],
    "numpy.take_along_axis": [("arr", REQ), ("indices", REQ), ("axis", REQ)],
    "numpy.sum": [("a", REQ), ("axis", None), ("dtype", None), ("out", None),
                  ("keepdims", False)],
    "numpy.mean": [("a", REQ), ("axis", None), ("dtype", None),
                   ("out", None), ("keepdims", False)],
    "numpy.max": [("a", REQ), ("axis", None)],
    "numpy.min": [("a", REQ), ("axis", None)],
    "numpy.any": [("a", REQ), ("axis", None)],
    "numpy.all": [("a", REQ), ("axis", None)],
    "numpy.diff": [("a", REQ), ("n", 1), ("axis", -1)],
    "numpy.argsort": [("a", REQ), ("axis", -1)],
    "numpy.argmax": [("a", REQ), ("axis", None)],
    "numpy.argmin": [("a", REQ), ("axis", None)],
    "numpy.unique": [("ar", REQ), ("return_index", False),
                     ("return_inverse", False), ("return_counts", False),
                     ("axis", None)],
    "numpy.searchsorted": [("a", REQ), ("v", REQ), ("side", "left"),
                           ("sorter", None)],
    "numpy.clip": [("a", REQ), ("a_min", None), ("a_max", None)],
    "numpy.arctan2": [("x1", REQ), ("x2", REQ)],
    "numpy.array": [("object", REQ), ("dtype", None), ("copy", True)],
    "numpy.asarray": [("a", REQ), ("dtype", None), ("order", None)],
    "numpy.asanyarray": [("a", REQ), ("dtype", None), ("order", None)],
    "numpy.copy": [("a", REQ)],
    "numpy.zeros": [("shape", REQ), ("dtype", None)],
    "numpy.ones": [("shape", REQ), ("dtype", None)],
    "numpy.empty": [("shape", REQ), ("dtype", None)],
    "numpy.full_like": [("a", REQ), ("fill_value", REQ), ("dtype", None)],
    "numpy.full": [("shape", REQ), ("fill_value", REQ), ("dtype", None)],
    "numpy.pad": [("array", REQ), ("pad_width", REQ), ("mode", "constant")],
    "numpy.zeros_like": [("a", REQ), ("dtype", None)],
    "numpy.ones_like": [("a", REQ), ("dtype", None)],
    "numpy.empty_like": [("a", REQ), ("dtype", None)],
    "numpy.dot": [("a", REQ), ("b", REQ)],
    "numpy.matmul": [("a", REQ), ("b", REQ)],
    "numpy.where": [("condition", REQ), ("x", None), ("y", None)],
    "numpy.linalg.svd": [("a", REQ), ("full_matrices", True),
                         ("compute_uv", True)],
    "numpy.linalg.det": [("a", REQ)],
    "numpy.linalg.eig": [("a", REQ)],
    "numpy.linalg.eigh": [("a", REQ), ("UPLO", "L")],
    "scipy.interpolate.interp1d": [
        ("x", REQ), ("y", REQ), ("kind", "linear"), ("axis", -1),
        ("copy", True), ("bounds_error", None), ("fill_value", "<nan>"),
        ("assume_sorted", False)],
    "quaternion.squad": [("R_in", REQ), ("t_in", REQ), ("t_out", REQ)],
    "quaternion.slerp_evaluate": [("q1", REQ), ("q2", REQ), ("tau", REQ)],
    "quaternion.as_quat_array": [("a", REQ)],
    "quaternion.as_float_array": [("a", REQ)],
    "quaternion.as_rotation_vector": [("q", REQ)],
    "quaternion.from_rotation_vector": [("rot", REQ)],
    "quaternion.from_rotation_matrix": [("rot", REQ), ("nonorthogonal", True)],
    "quaternion.rotate_vectors": [("R", REQ), ("v", REQ), ("axis", -1)],
    "quaternion.derivative": [("f", REQ), ("t", REQ), ("axis", 0)],
    "scipy.signal.filtfilt": [("b", REQ), ("a", REQ), ("x", REQ),
                              ("axis", -1)],
    "scipy.signal.butter": [("N", REQ), ("Wn", REQ), ("btype", "low"),
                            ("analog", False), ("output", "ba"),
                            ("fs", None)],
    "xarray.DataArray": [("data", NONE), ("coords", None), ("dims", None),
                         ("name", None), ("attrs", None)],
    "xarray.Dataset": [("data_vars", None), ("coords", None),
                       ("attrs", None)],
    "pandas.to_datetime": None,
    "rospy.Subscriber": [("name", REQ), ("data_class", REQ),
                         ("callback", None)],
    "threading.Thread": [("group", None), ("target", None), ("name", None),
                         ("args", ()), ("kwargs", None)],
    "pooch.retrieve": [("url", REQ), ("known_hash", REQ), ("fname", None),
                       ("path", None), ("processor", None),
                       ("downloader", None), ("progressbar", False)],
    "m:sel": None,
}

ALIAS = {
    "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "numpy.absolute": "numpy.abs", "numpy.row_stack": "numpy.vstack",
    "numpy.concat": "numpy.concatenate",
    "numpy.add": "numpy.add",
    "quaternion.numpy_quaternion.quaternion": "quaternion.quaternion",
    "numpy.quaternion": "quaternion.quaternion",
    "typing_extensions": "typing",
}

ND_METHODS = {"swapaxes", "transpose", "mean", "sum", "max", "min", "argsort",
              "argmax", "argmin", "take", "squeeze", "repeat", "clip", "dot",
              "any", "all", "ravel"}

VIEW_OPS = {
    "numpy.swapaxes", "numpy.transpose", "numpy.reshape", "numpy.ravel",
    "numpy.squeeze", "numpy.expand_dims", "numpy.asarray",
    "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.moveaxis",
    "numpy.rollaxis", "numpy.atleast_1d", "numpy.atleast_2d",
    "numpy.broadcast_to", "numpy.real", "numpy.imag", "numpy.array_split",
    "numpy.split", "quaternion.as_float_array", "quaternion.as_quat_array",
    "m:view", "m:to_numpy", "m:reshape", "m:transpose", "numpy.asfarray",
    "numpy.require", "restof", "numpy.flip", "numpy.flipud",
    "numpy.nan_to_num_inplace", "m:squeeze", "m:rename_axis",
}
DATA_ATTRS = {"data", "values", "T", "real", "imag", "flat", "_obj"}


def canon_extern(name):
    if name.startswith("np."):
        name = "numpy." + name[3:]
    if name in ALIAS:
        return ALIAS[name]
    return name


def is_full_index(i):
    return False


def view_bases(n, _d=0):
    """Objects whose memory a write to n may also change."""
    out = []
    if _d > 30:
        return out
    op = n.op
    if op in VIEW_OPS and n.args:
        b = n.args[0]
        out.append(b)
        out += view_bases(b, _d + 1)
    elif op == "item":
        out.append(n.args[0])
        out += view_bases(n.args[0], _d + 1)
    elif op in ("attr",) and n.meta in DATA_ATTRS:
        out.append(n.args[0])
        out += view_bases(n.args[0], _d + 1)
    elif op in ("update", "setattr", "binop") and op != "binop":
        out += view_bases(n.args[0], _d + 1)
    elif op == "phi":
        for a in n.args[1:]:
            out.append(a)
            out += view_bases(a, _d + 1)
    elif op == "mu":
        out.append(n.args[0])
        out += view_bases(n.args[0], _d + 1)
    elif op == "elem":
        out.append(n.args[0])
        out += view_bases(n.args[0], _d + 1)
    return [x for x in out if x.op not in ("const",)]


def roots(n, memo=None):
    """Abstract objects that n may alias: list of (kind, node).

    kind 'input' (caller-owned), 'global', 'field', 'fresh', 'unknown'.
    """
    memo = {} if memo is None else memo
    if n.k in memo:
        return memo[n.k]
    memo[n.k] = set()
    r = _roots(n, memo)
    memo[n.k] = r
    return r


class Root:
    __slots__ = ("kind", "node")

    def __init__(self, kind, node):
        self.kind, self.node = kind, node

    def __hash__(self):
        return hash((self.kind, self.node.k))

    def __eq__(self, o):
        return (self.kind, self.node.k) == (o.kind, o.node.k)

    def __repr__(self):
        return f"{self.kind}:{self.node!r}"


SHALLOW = {"builtins.dict", "builtins.list", "builtins.tuple",
           "builtins.sorted", "copy.copy", "builtins.reversed"}


WRAPS = {"xarray.DataArray", "xarray.Variable", "xarray.as_variable"}


def shallow_copy(n):
    return n.op == "m:copy" and len(n.args) > 1 and is_const(
        n.args[1], False)


def gathers(i):
    """Advanced indexing copies."""
    if i.op in ("tuple", "list"):
        return i.op == "list" or any(gathers(x) for x in i.args)
    if i.op in ("cmp", "numpy.where", "numpy.nonzero", "numpy.argsort",
                "numpy.isnan", "numpy.flatnonzero", "numpy.isfinite",
                "numpy.arange", "numpy.array", "numpy.asarray",
                "numpy.searchsorted", "numpy.logical_and",
                "numpy.logical_or", "numpy.any", "numpy.all",
                "numpy.logical_not"):
        return True
    if i.op == "binop" and i.meta in ("&", "|", "^"):
        return True
    if i.op in ("unop", "not"):
        return gathers(i.args[0])
    if i.op == "const":
        return isinstance(cval(i), bool)
    if i.op == "phi":
        return gathers(i.args[1]) and gathers(i.args[2])
    return False


FRESH_PREFIX = ("numpy.", "scipy.", "quaternion.", "pandas.", "xarray.",
                "builtins.", "functools.", "operator.", "itertools.",
                "pathlib.", "math.", "copy.", "io.", "collections.",
                "threading.", "rospy.", "geometry_msgs.",
                "visualization_msgs.", "std_msgs.", "tf2_ros.", "tf.",
                "rosbag.", "warnings.", "pooch.", "anytree.", "matplotlib.",
                "mpl_toolkits.", "roslaunch.", "ipywidgets.", "IPython.",
                "jupyros.")


CONTAINER = ("list", "tuple", "ntuple", "set", "dict", "zip", "enumerate",
             "dictcomp")


def contents(n, memo, depth=0):
    """Roots of what a container built by the program may hold."""
    key = (n.uid, n.k, "contents")
    if key in memo:
        return memo[key]
    memo[key] = frozenset()
    op = n.op
    r = set()
    if depth > 30:
        pass
    elif op in CONTAINER:
        for a in n.args:
            for x in (a if isinstance(a, tuple) else (a,)):
                if not isinstance(x, N):
                    continue
                if x.op == "mapseg" or x.op == "condseg":
                    x = x.args[1]
                if x.op in CONTAINER:
                    r |= contents(x, memo, depth + 1)
                elif op in ("zip", "enumerate"):
                    r |= roots(x, memo) | contents(x, memo, depth + 1)
                else:
                    r |= roots(x, memo)
    elif op == "phi":
        r = contents(n.args[1], memo, depth + 1) | \
            contents(n.args[2], memo, depth + 1)
    elif op in ("loop", "last", "mu", "binop") or op in SHALLOW:
        for x in n.args:
            if isinstance(x, N):
                r |= contents(x, memo, depth + 1)
    elif op in ("mutated", "update", "updmany", "delitem"):
        r = contents(n.args[0], memo, depth + 1)
        for x in n.args[1:]:
            if isinstance(x, N):
                r = r | (contents(x, memo, depth + 1)
                         if x.op in CONTAINER else roots(x, memo))
    elif op in ("elem", "item"):
        r = contents(n.args[0], memo, depth + 1)
    memo[key] = r
    return r


def _roots(n, memo):
    op = n.op
    if op == "in":
        if dict(n.meta[1]).get("glob"):
            return {Root("global", n)}
        return {Root("input", n)}
    if op in ("const", "func", "class", "extern", "module", "fstr", "cmp",
              "isnone", "not", "truth", "isinst", "hasattr", "binop", "unop",
              "unbound", "range", "in_", "exc", "excval", "ellipsis",
              "slice", "index_of", "applied", "ntclass", "zip", "enumerate",
              "strfmt", "fmt", "bound", "partial", "inst", "list", "dict",
              "set", "mapseg", "condseg", "dictcomp", "tuple", "ntuple"):
        if op == "inst":
            return {Root("fresh", n)}
        return {Root("fresh", n)}
    if op == "phi":
        return roots(n.args[1], memo) | roots(n.args[2], memo)
    if op in ("mu",):
        return roots(n.args[0], memo)
    if op == "loop":
        return roots(n.args[1], memo) | roots(n.args[3], memo)
    if op == "last":
        return roots(n.args[1], memo) | roots(n.args[2], memo)
    if op in ("setattr", "update", "delitem", "mutated", "updmany"):
        return roots(n.args[0], memo)
    if op in ("item", "elem", "m:get", "m:values", "m:items"):
        b = n.args[0]
        while b.op in ("update", "mutated", "setattr", "delitem", "updmany"):
            b = b.args[0]
        if op == "item" and gathers(n.args[1]):
            return {Root("fresh", n)}
        r = roots(n.args[0], memo)
        if b.op in SHALLOW and b.args:
            r = r | roots(b.args[0], memo)
        return r | contents(n.args[0], memo)
    if op in VIEW_OPS or op in ("enter", "reversed", "dictitems"):
        return roots(n.args[0], memo)
    if op in WRAPS and n.args:
        return roots(n.args[0], memo) | {Root("fresh", n)}
    if op == "attr":
        b = n.args[0]
        while b.op in ("update", "mutated", "setattr"):
            b = b.args[0]
        if b.op in WRAPS or shallow_copy(b):
            # own metadata, shared data
            return roots(b.args[0], memo) if n.meta in DATA_ATTRS and \
                b.args else {Root("fresh", n)}
        if b.op in ("elem", "item", "phi"):
            return roots(n.args[0], memo) | contents(n.args[0], memo)
        return roots(n.args[0], memo)
    if op in ("m:get", "m:setdefault", "builtins.getattr", "m:isel", "m:sel",
              "m:squeeze", "m:groupby", "m:xs", "m:items", "m:values",
              "builtins.next", "builtins.iter", "m:rename",
              "m:transpose", "m:set_axis"):
        return roots(n.args[0], memo)
    if op == "m:walk":      # (upwards, common, downwards) nodes of the tree
        r = set()
        for a in n.args[1:]:
            r |= roots(a, memo)
        return r
    if op in ("numpy.array",):
        if len(n.args) > 2 and is_const(n.args[2], True):
            return {Root("fresh", n)}
        return roots(n.args[0], memo) | {Root("fresh", n)}
    if op == "m:astype":
        if n.meta and "copy" in n.meta:
            return roots(n.args[0], memo) | {Root("fresh", n)}
        return {Root("fresh", n)}
    if op.startswith("m:"):
        if op in ("m:copy", "m:flatten", "m:mean", "m:interp", "m:dot",
                  "m:conjugate", "m:astype", "m:tolist", "m:to_sec",
                  "m:set_index", "m:rename_axis", "m:replace", "m:format",
                  "m:lower", "m:capitalize", "m:index", "m:split"):
            return {Root("fresh", n)}
        return {Root("unknown", n)}
    if op.startswith(FRESH_PREFIX):
        return {Root("fresh", n)}
    return {Root("unknown", n)}


def norm(interp, op, args, kwargs):
    """Canonical operand list according to the library signature."""
    sig = SIG.get(op)
    if any(a.op == "star" for a in args) or "**" in kwargs or sig is None:
        ks = sorted(kwargs)
        return list(args) + [kwargs[k] for k in ks], tuple(ks) or None
    vals = list(args)
    used = set()
    if len(vals) > len(sig):
        ks = sorted(kwargs)
        return vals + [kwargs[k] for k in ks], tuple(ks) or None
    out = []
    for i, (p, d) in enumerate(sig):
        if i < len(vals):
            out.append(vals[i])
        elif p in kwargs:
            out.append(kwargs[p])
            used.add(p)
        elif d is REQ:
            ks = sorted(kwargs)
            return vals + [kwargs[k] for k in ks], tuple(ks) or None
        else:
            out.append(d if isinstance(d, N) else const(d))
    extra = sorted(k for k in kwargs if k not in used)
    extra = [k for k in extra if k not in [p for p, _ in sig[:len(vals)]]]
    return out + [kwargs[k] for k in extra], tuple(extra) or None


def attribute(interp, b, name):
    if name == "T":
        return interp.mk("numpy.transpose", (b, NONE))
    if b.op == "dict" and name in ("items", "keys", "values"):
        return interp.mk("method", (b,), name)
    if b.op in ("const", "list", "dict", "tuple", "set", "fstr", "strfmt"):
        return interp.mk("method", (b,), name)
    return interp.mk("attr", (b,), name)


def _isinst(interp, x, T):
    if T.op in ("tuple", "list"):
        r = FALSE
        for t in reversed(T.args):
            c = _isinst(interp, x, t)
            r = interp.mkphi(c, TRUE, r)
        return r
    if T.op == "binop" and T.meta == "|":
        r = FALSE
        for t in reversed(T.args):
            r = interp.mkphi(_isinst(interp, x, t), TRUE, r)
        return r
    if x.op == "phi":
        return interp.mkphi(x.args[0],
                            _isinst(interp, interp.kid(x, 1), T),
                            _isinst(interp, interp.kid(x, 2), T))
    tname = T.meta if T.op == "extern" else None
    if x.op == "const":
        v = cval(x)
        py = {"builtins.str": str, "builtins.int": int,
              "builtins.float": float, "builtins.bool": bool,
              "builtins.tuple": tuple, "builtins.list": list,
              "builtins.dict": dict}.get(tname)
        if py:
            return TRUE if isinstance(v, py) else FALSE
        if T.op == "class" or v is None or tname:
            if tname and tname.startswith(("numbers.", "typing.",
                                           "collections.abc")):
                return N("isinst", (x, T))
            return FALSE
    if x.op in ("tuple", "list", "dict", "set", "fstr"):
        py = {"builtins.tuple": "tuple", "builtins.list": "list",
              "builtins.dict": "dict", "builtins.str": "fstr",
              "builtins.set": "set"}.get(tname)
        if py:
            return TRUE if py == x.op else FALSE
        if tname in ("builtins.int", "builtins.float", "builtins.bool"):
            return FALSE
        if T.op == "class":
            return FALSE
    if x.op == "ntuple":
        return TRUE if tname == "builtins.tuple" else FALSE
    t = interp.tyof(x)
    ci = t.get("cls")
    if ci is not None:
        if T.op == "class":
            c = _sub(interp, ci, T.meta)
            if t.get("nonnull"):
                return TRUE if c else FALSE
            if not c:
                return FALSE
            return interp.neg(interp.isnone(x))
        if tname in ("builtins.str", "builtins.int", "builtins.float",
                     "builtins.tuple", "builtins.list", "builtins.dict"):
            return FALSE
    kind = t.get("kind")
    if kind is not None:
        m = {"str": "builtins.str", "int": "builtins.int",
             "float": "builtins.float", "tuple": "builtins.tuple",
             "list": "builtins.list", "dict": "builtins.dict",
             "ndarray": "numpy.ndarray", "DataArray": "xarray.DataArray",
             "Dataset": "xarray.Dataset", "bool": "builtins.bool",
             "frame": None, "DatetimeIndex": "pandas.DatetimeIndex"}
        if T.op == "class":
            return FALSE
        if kind in m and tname and (
                tname.startswith(("builtins.", "numpy.ndarray", "xarray.",
                                  "pandas."))):
            if t.get("none"):
                return FALSE
            same = m[kind] == tname
            if kind == "bool" and tname == "builtins.int":
                same = True
            if not same:
                return FALSE
            if t.get("nonnull"):
                return TRUE
    if _arrayish(x, interp.loose) and (T.op == "class" or tname in (
            "builtins.str", "builtins.tuple", "builtins.list",
            "builtins.dict")):
        return FALSE
    return N("isinst", (x, T), loc=interp.loc)


def _arrayish(x, loose=()):
    if x.op == "mu":
        # a loop that rebinds an array to arrays (checked by gen_loop)
        return x.meta not in loose and _arrayish(x.args[0], loose)
    if x.op == "phi":
        return _arrayish(x.args[1], loose) and _arrayish(x.args[2], loose)
    if x.op == "loop":
        return _arrayish(x.args[1], loose) and _arrayish(x.args[3], loose)
    return x.op.startswith(("numpy.", "quaternion.", "scipy.")) or \
        x.op in ("binop", "unop", "applied")


def _sub(interp, ci, other):
    if ci.qualname == other.qualname:
        return True
    return any(b.op == "class" and _sub(interp, b.meta, other)
               for b in ci.bases)


DA_ATTRS = {"values", "coords", "dims", "name", "attrs", "data", "dtype",
            "shape", "ndim", "copy", "astype", "to_numpy", "sel", "isel",
            "interp", "indexes", "T", "to_dataset"}
DS_ATTRS = {"data_vars", "coords", "dims", "to_array", "attrs", "copy",
            "values", "sel", "isel", "interp", "indexes"}
ND_ATTRS = {"dtype", "shape", "ndim", "copy", "astype", "T", "data", "size"}


def _hasattr(interp, x, name):
    if name.op != "const":
        return N("hasattr", (x, name))
    nm = cval(name)
    t = interp.tyof(x)
    k = t.get("kind")
    if k == "DataArray":
        return TRUE if nm in DA_ATTRS else FALSE
    if k == "Dataset":
        return TRUE if nm in DS_ATTRS else FALSE
    if k in ("ndarray",) or _arrayish(x, interp.loose):
        return TRUE if nm in ND_ATTRS else FALSE
    if x.op in ("const", "list", "tuple", "dict"):
        py = {"list": list, "tuple": tuple, "dict": dict}.get(x.op)
        if x.op == "const":
            py = type(cval(x))
        return TRUE if hasattr(py, nm) else FALSE
    if x.op == "ntuple":
        return TRUE if nm in x.meta[1] or hasattr(tuple, nm) or nm in (
            "_asdict", "_replace", "_fields", "_make") else FALSE
    if x.op == "inst":
        if nm in dict(x.args) or interp.class_member(x.meta[0], nm):
            return TRUE
    if x.op == "phi":
        return interp.mkphi(x.args[0], _hasattr(interp, x.args[1], name),
                            _hasattr(interp, x.args[2], name))
    return N("hasattr", (x, name), loc=interp.loc)


NARROW = {"float32", "float16", "single", "half", "f4", "f2", "<f4", "<f2",
          "e", "f", "int32", "int16", "int8", "uint8", "uint16", "uint32",
          "i4", "i2", "i1", "intc", "short", "csingle", "complex64"}
ROUND = {"numpy.round", "numpy.around", "numpy.rint", "numpy.trunc",
         "numpy.fix", "m:round", "m:floor", "m:ceil", "builtins.round", "numpy.floor",
         "numpy.ceil", "math.floor", "math.ceil", "math.trunc"}


def narrow(d):
    q = cval(d) if d.op == "const" else \
        d.meta.rsplit(".", 1)[-1] if d.op == "extern" and isinstance(
            d.meta, str) and d.meta.startswith("numpy.") else None
    return q if isinstance(q, str) and q in NARROW else None


def lossy(n):
    """What an operation does to its values when it loses part of them."""
    if n.op in ROUND:
        return n.op.rsplit(".", 1)[-1].replace("m:", "")
    if n.op in ("numpy.asarray", "numpy.array", "m:astype",
                "numpy.asanyarray", "numpy.ascontiguousarray",
                "numpy.require", "numpy.full", "numpy.zeros", "numpy.empty",
                "numpy.ones", "numpy.zeros_like", "numpy.empty_like",
                "numpy.ones_like", "numpy.full_like"):
        for d in n.args[1:]:
            q = isinstance(d, N) and narrow(d)
            if q:
                return "cast to " + q
    if n.op.startswith("numpy.") and n.op[6:] in NARROW and n.args:
        return "cast to " + n.op[6:]
    # the dtype of an array of the caller, which may be one of integers
    if n.op in ("m:astype", "numpy.asarray", "numpy.array") and \
            len(n.args) > 1 and isinstance(n.args[1], N) and \
            n.args[1].op == "attr" and n.args[1].meta == "dtype":
        x = given(n.args[1].args[0])
        if x is not None and fractional(n.args[0], x):
            return "cast to the type of the input"
    if n.op == "update" and len(n.args) == 3:
        b = n.args[0]
        while b.op == "update":
            b = b.args[0]
        x = None
        if b.op in ("numpy.zeros_like", "numpy.empty_like",
                    "numpy.ones_like") and (
                len(b.args) < 2 or is_none(b.args[1])):
            x = given(b.args[0])
        elif b.op in ("numpy.zeros", "numpy.empty", "numpy.ones") and \
                len(b.args) > 1 and b.args[1].op == "attr" and \
                b.args[1].meta == "dtype":
            x = given(b.args[1].args[0])
        elif b.op in ("numpy.copy", "m:copy"):
            x = given(b.args[0])
        if x is not None and fractional(n.args[2], x):
            return "stored as the type of the input"
    return None


LAY = {"numpy.swapaxes", "numpy.transpose", "numpy.reshape", "numpy.ravel",
       "numpy.squeeze", "numpy.expand_dims", "numpy.asanyarray",
       "numpy.moveaxis", "numpy.rollaxis", "numpy.atleast_1d",
       "numpy.atleast_2d", "numpy.take", "numpy.copy", "m:copy", "m:reshape",
       "m:transpose", "item", "m:view"}


def given(n):
    """The argument an array is (a part of), with the argument's dtype."""
    while True:
        if n.op in LAY or n.op in ("numpy.asarray", "numpy.array") and (
                len(n.args) < 2 or is_none(n.args[1])):
            n = n.args[0]
        elif n.op == "attr" and n.meta == "T":
            n = n.args[0]
        elif n.op == "in":
            return n
        else:
            return None


def fractional(v, x):
    """Can have digits after the point although x is an array of integers."""
    todo, seen = [v], set()
    while todo:
        v = todo.pop()
        if v.k in seen or len(seen) > 2000:
            continue
        seen.add(v.k)
        if v.op in FRAC or v.op == "binop" and v.meta == "/":
            return True
        if v.op == "const":
            c = cval(v)
            if isinstance(c, float) and c == c and c != int(c):
                return True
        elif v.op == "in":
            if v.k != x.k:
                return True
        elif v.op in LAY or v.op == "attr" and v.meta == "T":
            todo.append(v.args[0])
        elif v.op in ("binop", "unop", "tuple", "list", "numpy.stack",
                      "numpy.concatenate", "numpy.vstack", "numpy.hstack",
                      "numpy.cross", "numpy.matmul", "numpy.dot",
                      "numpy.asarray", "numpy.array", "phi", "numpy.abs",
                      "numpy.sum", "numpy.where"):
            for y in v.args[1:] if v.op in ("phi", "numpy.where") else v.args:
                if isinstance(y, N):
                    todo.append(y)
                elif isinstance(y, tuple):
                    todo.extend(z for z in y if isinstance(z, N))
    return False


FRAC = {"numpy.cos", "numpy.sin", "numpy.sqrt", "numpy.arctan2",
        "numpy.arccos", "numpy.linalg.norm", "numpy.mean", "numpy.gradient",
        "quaternion.as_float_array", "quaternion.rotate_vectors",
        "op:rotate", "op:qinv", "op:qmul"}


def call(I, q, args, kwargs):
    f = BUILTINS.get(q)
    if f is not None:
        r = f(I, args, kwargs)
        if r is not NotImplemented:
            return r
    tgt = kwargs.get("out")
    if tgt is not None and q.startswith(("numpy.", "scipy.")) and \
            not is_none(tgt):
        return _into(I, tgt, q + " out=", q, args, kwargs)
    if args and (q in INPLACE or q.startswith("numpy.") and
                 q.endswith(".at") or
                 q == "numpy.nan_to_num" and
                 is_const(kwargs.get("copy", NONE), False)):
        return _into(I, args[0], q, q, args, kwargs)
    if q in ("numpy.any", "numpy.all") and len(args) == 1 and not kwargs and \
            args[0].op == "const" and isinstance(
                cval(args[0]), (int, float, type(None))):
        return const(bool(cval(args[0])))
    a, ks = norm(I, q, args, kwargs)
    I.mayraise.add("*")
    n = I.mk(q, a, ks)
    I.calls.append((q, n, I.loc, tuple(I.stack), I.st.pc))
    return n


INPLACE = {"numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal",
           "numpy.random.shuffle", "random.shuffle", "numpy.put_along_axis",
           "heapq.heapify", "heapq.heappush", "operator.setitem",
           "operator.delitem", "operator.iadd", "operator.isub",
           "operator.imul", "operator.itruediv", "bisect.insort"}


def _into(I, tgt, how, q, args, kwargs):
    """A library call that writes into one of its operands."""
    tgt = I.cur(tgt)
    I.effect("mutate", tgt, how, tuple(args))
    rest = {k: v for k, v in kwargs.items() if k != "out"}
    a, ks = norm(I, q, args, rest)
    n = N(q, a, ks, uid=tgt.uid if how.endswith("out=") else None, loc=I.loc)
    I.calls.append((q, n, I.loc, tuple(I.stack), I.st.pc))
    if tgt.op in ("const", "tuple"):
        return n
    new = n if n.uid == tgt.uid else N(
        "mutated", (tgt,) + tuple(args[1:]), q, uid=tgt.uid, loc=I.loc)
    I.set_content(tgt, new)
    I.view_clobber(tgt)
    return new if n.uid == tgt.uid else NONE


def _b_len(I, a, k):
    x = a[0]
    it = I.static_items(x)
    if it is not None:
        return const(len(it))
    return I.mk("builtins.len", a)


def _b_isinstance(I, a, k):
    return _isinst(I, a[0], a[1])


def _b_getattr(I, a, k):
    nm = a[1]
    if nm.op == "phi":
        return I.branch(nm.args[0],
                        lambda: _b_getattr(I, [a[0], I.cur(nm.args[1])] +
                                           list(a[2:]), k),
                        lambda: _b_getattr(I, [a[0], I.cur(nm.args[2])] +
                                           list(a[2:]), k))
    if nm.op == "const" and isinstance(cval(nm), str):
        if len(a) > 2:
            c = _hasattr(I, a[0], nm)
            return I.branch(c, lambda: I.getattr(a[0], cval(nm)),
                            lambda: a[2])
        return I.getattr(a[0], cval(nm))
    return I.mk("builtins.getattr", a)


def _b_setattr(I, a, k):
    if a[1].op == "const":
        I.set_attr(a[0], cval(a[1]), a[2])
        return NONE
    I.effect("mutate", a[0], "setattr")
    return NONE


def _b_hasattr(I, a, k):
    return _hasattr(I, a[0], a[1])


def _b_all(I, a, k):
    return _quant(I, a, True)


def _b_any(I, a, k):
    return _quant(I, a, False)


def _quant(I, a, isall):
    x = a[0]
    if x.op in ("list", "tuple", "set"):
        r = TRUE if isall else FALSE
        segs = I.segments(x)
        for sg in reversed(segs):
            if sg[0] == "item":
                c = I.truth(sg[1])
            elif sg[0] == "cond":
                c = I.truth(sg[2])
                c = I.mkphi(sg[1], c, TRUE if isall else FALSE)
            else:
                c = I.truth(sg[2])
                d = I.decide(c)
                if d is True and isall or d is False and not isall:
                    continue
                c = N("truth", (N("quant", (sg[1], c, sg[3]),
                                  "all" if isall else "any"),), loc=I.loc)
            r = I.mkphi(c, r, FALSE) if isall else I.mkphi(c, TRUE, r)
        return r
    return I.mk("builtins.all" if isall else "builtins.any", a)


def _seglist(I, x):
    out = []
    for sg in I.segments(x):
        if sg[0] == "item":
            out.append(sg[1])
        elif sg[0] == "cond":
            out.append(N("condseg", (sg[1], sg[2])))
        else:
            out.append(N("mapseg", (sg[1], sg[2], sg[3])))
    return out


def _b_list(I, a, k):
    if not a:
        return I.mk("list", ())
    x = a[0]
    return I.mk("list", _seglist(I, x))


def _b_tuple(I, a, k):
    if not a:
        return I.mk("tuple", ())
    it = I.static_items(a[0])
    if it is not None:
        return I.mk("tuple", it)
    x = a[0]
    if x.op in ("list", "zip", "enumerate", "reversed", "phi"):
        return I.mk("list", _seglist(I, x))
    return I.mk("builtins.tuple", a)


def _b_dict(I, a, k):
    items = []
    if a:
        x = a[0]
        if x.op == "dict":
            items = list(x.args)
        elif x.op in ("zip", "list", "tuple"):
            segs = I.segments(x)
            if all(s[0] == "item" and I.static_items(s[1]) and
                   len(I.static_items(s[1])) == 2 for s in segs):
                items = [tuple(I.static_items(s[1])) for s in segs]
            else:
                return I.mk("builtins.dict", a)
        else:
            base = I.mk("builtins.dict", a)
            if k:
                d = I.mk("dict", [(const(q), v) for q, v in k.items()])
                return I.mk("updmany", (base, d))
            return base
    for q, v in k.items():
        if q == "**":
            items.append((N("dstar"), v))
            continue
        items = [(kk, vv) for kk, vv in items if not is_const(kk, q)]
        items.append((const(q), v))
    return I.mk("dict", items)


def _b_zip(I, a, k):
    # zip(*x) of an unknown x stays opaque
    its = [I.static_items(x) for x in a]
    if its and None not in its and all(
            x.op != "const" or isinstance(cval(x), (str, tuple)) for x in a):
        return I.mk("list", [I.mk("tuple", t) for t in zip(*its)])
    return I.mk("zip", a)


def _b_enumerate(I, a, k):
    return I.mk("enumerate", (a[0], a[1] if len(a) > 1 else
                              k.get("start", const(0))))


def _b_range(I, a, k):
    return I.mk("range", a)


def _b_reversed(I, a, k):
    if a[0].op == "reversed":
        return a[0].args[0]
    it = I.static_items(a[0])
    if it is not None:
        return I.mk("list", list(reversed(it)))
    return I.mk("reversed", a)


def _b_map(I, a, k):
    f, x = a[0], a[1]
    if len(a) > 2:
        x = N("zip", a[1:])
        segs = I.segments(x)
    else:
        segs = I.segments(x)
    out = []
    for sg in segs:
        v = sg[1] if sg[0] == "item" else sg[2]
        args = list(v.args) if len(a) > 2 else [v]
        r = I.call(f, args, {})
        out.append(r if sg[0] == "item" else N("condseg", (sg[1], r))
                   if sg[0] == "cond" else N("mapseg", (sg[1], r, sg[3])))
    return I.mk("list", out)


def _b_filter(I, a, k):
    f, x = a
    out = []
    for sg in I.segments(x):
        v = sg[1] if sg[0] == "item" else sg[2]
        c = I.truth(v if is_none(f) else I.call(f, [v], {}))
        if sg[0] == "item":
            d = I.decide(c)
            if d is True:
                out.append(v)
            elif d is None:
                out.append(N("condseg", (c, v)))
        elif sg[0] == "cond":
            out.append(N("condseg", (I.andc(sg[1], c), v)))
        else:
            out.append(N("mapseg", (sg[1], v, I.andc(sg[3], c))))
    return I.mk("list", out)


def _b_str(I, a, k):
    if a and a[0].op == "const" and isinstance(cval(a[0]), (str, int)):
        return const(str(cval(a[0])))
    if a and a[0].op == "fstr":
        return a[0]
    return I.mk("builtins.str", a)


def _b_bool(I, a, k):
    return I.truth(a[0]) if a else FALSE


def _b_int(I, a, k):
    if a and a[0].op == "const" and isinstance(cval(a[0]), (int, float)):
        return const(int(cval(a[0])))
    return NotImplemented


def _b_float(I, a, k):
    if a and a[0].op == "const" and isinstance(cval(a[0]), (int, float)):
        return const(float(cval(a[0])))
    return NotImplemented


def _b_type(I, a, k):
    if len(a) == 1:
        x = a[0]
        if x.op == "inst":
            return I.classes.get(x.meta[0].qualname) or N("class", (),
                                                          x.meta[0])
        t = I.tyof(x).get("cls")
        if t is not None and I.tyof(x).get("nonnull"):
            return I.classes.get(t.qualname) or N("class", (), t)
    return I.mk("builtins.type", a)


def _partial(I, a, k):
    return N("partial", a, tuple(sorted(k.items())), loc=I.loc)


def _reduce(I, a, k):
    f, x = a[0], a[1]
    acc = a[2] if len(a) > 2 else None
    segs = I.segments(x)
    if all(s[0] == "item" for s in segs):
        for s in segs:
            acc = s[1] if acc is None else I.call(f, [acc, s[1]], {})
        return acc
    for s in segs:
        if s[0] == "item":
            acc = s[1] if acc is None else I.call(f, [acc, s[1]], {})
            continue
        if s[0] == "cond":
            return I.mk("functools.reduce", a)
        it, el, c = s[1], s[2], s[3]
        if acc is None:
            acc = N("first", (it,))
        mu = N("mu", (acc,), (it.k, "reduce", I.tick() or 0))
        body = I.call(f, [mu, el], {})
        acc = N("loop", (it, acc, mu, body, c), (0,), loc=I.loc)
    return acc


def _op(sym):
    return lambda I, a, k: I.binop(sym, a[0], a[1])


def _itemgetter(I, a, k):
    return NotImplemented


def _chain(I, a, k):
    out = []
    for x in a:
        if x.op == "star":
            for sg in I.segments(x.args[0]):
                v = sg[1] if sg[0] == "item" else None
                if v is None:
                    return NotImplemented
                out += _seglist(I, v)
        else:
            out += _seglist(I, x)
    return I.mk("list", out)


def _chain_from(I, a, k):
    out = []
    for sg in I.segments(a[0]):
        if sg[0] != "item":
            return NotImplemented
        out += _seglist(I, sg[1])
    return I.mk("list", out)


def _namedtuple(I, a, k):
    name = cval(a[0]) if a[0].op == "const" else "?"
    f = a[1] if len(a) > 1 else k.get("field_names")
    if f.op == "const" and isinstance(cval(f), str):
        flds = tuple(cval(f).replace(",", " ").split())
    else:
        it = I.static_items(f)
        if it is None or not all(x.op == "const" for x in it):
            return NotImplemented
        flds = tuple(cval(x) for x in it)
    return N("ntclass", (), (name, flds), loc=I.loc)


def _warn(I, a, k):
    I.effect("warn", None, "warnings.warn", tuple(a))
    return NONE


def _print(I, a, k):
    I.effect("print", None, "print", tuple(a))
    return NONE


def _next(I, a, k):
    x = a[0]
    segs = I.segments(x)
    if segs and segs[0][0] == "item":
        return segs[0][1]
    return I.mk("builtins.next", a)


def _iter(I, a, k):
    if a[0].op in ("list", "tuple", "dict"):
        return a[0]
    return NotImplemented


def _np_array(I, a, k):
    # np.array(list literal): keep the element structure
    return NotImplemented


def _np_split(I, a, k):
    """Splitting at constant positions: the slices between them."""
    a = list(a)
    for i, q in enumerate(("ary", "indices_or_sections", "axis")):
        if len(a) == i and q in k:
            a.append(k[q])
    at = I.static_items(a[1]) if len(a) > 1 else None
    ax = a[2] if len(a) > 2 else const(0)
    if at is None or not all(
            x.op == "const" and type(cval(x)) is int and cval(x) >= 0
            for x in at) or ax.op != "const" or \
            type(cval(ax)) is not int or cval(ax) < -1:
        return NotImplemented
    at = [NONE] + list(at) + [NONE]
    full = N("slice", (NONE, NONE, NONE))
    out = []
    for lo, hi in zip(at, at[1:]):
        s = N("slice", (lo, hi, NONE))
        if cval(ax) == -1:
            s = I.mk("tuple", (const(...), s))
        elif cval(ax):
            s = I.mk("tuple", [full] * cval(ax) + [s])
        out.append(I.getitem(a[0], s))
    return I.mk("list", out)


def _slice(I, a, k):
    a = list(a)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return N("slice", a)


def _sorted(I, a, k):
    ks = sorted(k)
    if len(a) == 1 and not k and is_const(a[0]) and isinstance(
            cval(a[0]), str):
        return I.mk("list", [const(c) for c in sorted(cval(a[0]))])
    return I.mk("builtins.sorted", list(a) + [k[q] for q in ks],
                tuple(ks) or None)


def _copyfn(I, a, k):
    x = a[0]
    if x.op in ("list", "dict"):
        return N(x.op, x.args, loc=I.loc)
    return I.mk("m:copy", (x,))


def _minmax(q):
    def f(I, a, k):
        xs = a
        if len(a) == 1:
            it = I.static_items(a[0])
            if it is None:
                return NotImplemented
            xs = it
        if not k and xs and all(x.op == "const" and isinstance(
                cval(x), (int, float)) for x in xs):
            return const((max if q == "max" else min)(cval(x) for x in xs))
        if not k and len(xs) > 1:
            return I.mk("builtins." + q, xs)
        return NotImplemented
    return f


def _astype_fn(q):
    def f(I, a, k):
        return NotImplemented
    return f


def _npop(sym):
    def f(I, a, k):
        if len(a) == 2 and not k:
            return I.binop(sym, a[0], a[1])
        if len(a) in (2, 3) and (len(a) == 3 or "out" in k):
            tgt = a[2] if len(a) == 3 else k["out"]
            new = I.binop(sym, a[0], a[1])
            I.effect("mutate", tgt, "ufunc out=")
            upd = N(new.op, new.args, new.meta, uid=tgt.uid, loc=I.loc)
            if tgt.op not in ("const", "tuple"):
                I.set_content(tgt, upd)
                I.view_clobber(tgt)
            return upd
        return NotImplemented
    return f


def _npneg(I, a, k):
    if len(a) == 1 and not k:
        return I.unop("-", a[0])
    return NotImplemented


def _np_copyto(I, a, k):
    I.effect("mutate", a[0], "numpy.copyto")
    I.set_content(a[0], N("update", (a[0], N("ellipsis"), a[1]),
                          uid=a[0].uid, loc=I.loc))
    I.view_clobber(a[0])
    return NONE


def _out_kw(q):
    """numpy function with an out= argument that names an existing array."""
    return None


def _cmp(op):
    import ast as _a
    t = {"==": _a.Eq, "!=": _a.NotEq, "<": _a.Lt, "<=": _a.LtE, ">": _a.Gt,
         ">=": _a.GtE}[op]

    def f(I, a, k):
        if len(a) == 2 and not k:
            return I.compare(t(), a[0], a[1])
        return NotImplemented
    return f


BUILTINS = {
    "builtins.len": _b_len, "builtins.isinstance": _b_isinstance,
    "builtins.getattr": _b_getattr, "builtins.setattr": _b_setattr,
    "builtins.hasattr": _b_hasattr, "builtins.all": _b_all,
    "builtins.any": _b_any, "builtins.list": _b_list,
    "builtins.tuple": _b_tuple, "builtins.dict": _b_dict,
    "builtins.zip": _b_zip, "builtins.enumerate": _b_enumerate,
    "builtins.range": _b_range, "builtins.reversed": _b_reversed,
    "builtins.map": _b_map, "builtins.filter": _b_filter,
    "builtins.str": _b_str, "builtins.bool": _b_bool,
    "builtins.int": _b_int, "builtins.float": _b_float,
    "builtins.type": _b_type, "functools.partial": _partial,
    "functools.reduce": _reduce, "collections.namedtuple": _namedtuple,
    "itertools.chain": _chain, "itertools.chain.from_iterable": _chain_from,
    "warnings.warn": _warn, "builtins.print": _print, "builtins.next": _next,
    "builtins.iter": _iter, "builtins.slice": _slice,
    "builtins.sorted": _sorted, "copy.copy": _copyfn,
    "builtins.min": _minmax("min"), "builtins.max": _minmax("max"),
    "operator.mul": _op("*"), "operator.add": _op("+"),
    "operator.sub": _op("-"), "operator.truediv": _op("/"),
    "operator.neg": lambda I, a, k: I.unop("-", a[0]),
    "operator.eq": _cmp("=="), "operator.ge": _cmp(">="),
    "operator.le": _cmp("<="), "operator.gt": _cmp(">"),
    "operator.lt": _cmp("<"),
    "numpy.multiply": _npop("*"), "numpy.add": _npop("+"),
    "numpy.subtract": _npop("-"), "numpy.divide": _npop("/"),
    "numpy.true_divide": _npop("/"), "numpy.negative": _npneg,
    "numpy.power": _npop("**"),
    "numpy.logical_and": _npop("&"), "numpy.logical_or": _npop("|"),
    "numpy.greater_equal": _cmp(">="), "numpy.less_equal": _cmp("<="),
    "numpy.greater": _cmp(">"), "numpy.less": _cmp("<"),
    "numpy.equal": _cmp("=="),
    "numpy.copyto": _np_copyto, "numpy.split": _np_split,
}


OWNERS = {"builtins.str", "builtins.dict", "builtins.list", "builtins.set",
          "builtins.tuple", "numpy.ndarray", "xarray.DataArray",
          "xarray.Dataset"}
STATIC = {"anytree.Walker.walk", "anytree.walker.Walker.walk"}


def method(I, obj, name, args, kwargs):
    obj = I.cur(obj)
    if name == "walk" and kwargs and set(kwargs) <= {"start", "end"}:
        args = list(args) + [kwargs[k] for k in ("start", "end")
                             if k in kwargs]
        kwargs = {}
    op = obj.op
    if name.startswith("super."):
        I.effect("super_call", obj, name[6:], tuple(args))
        return I.mk("m:" + name, (obj,) + tuple(args))
    if op == "in" and name in ("get", "pop") and args and \
            obj.meta[0].startswith("global:") and \
            I.tyof(obj).get("kind") == "dict":
        import ast as _a
        c = I.compare(_a.In(), args[0], obj)
        if len(args) > 1 or name == "get":
            dflt = args[1] if len(args) > 1 else kwargs.get("default", NONE)

            def hit():
                v = I.getitem(obj, args[0])
                if name == "pop":
                    I.effect("mutate", obj, ".pop", tuple(args))
                    I.set_content(obj, N("mutated", (obj, args[0]), "pop",
                                         uid=obj.uid))
                return v
            return I.branch(c, hit, lambda: dflt)
        v = I.getitem(obj, args[0])
        I.effect("mutate", obj, ".pop", tuple(args))
        I.set_content(obj, N("mutated", (obj, args[0]), "pop", uid=obj.uid))
        return v
    if op == "phi" and name in ("get", "items", "keys", "values"):
        return I.branch(obj.args[0],
                        lambda: I.call(I.getattr(obj.args[1], name), args,
                                       kwargs),
                        lambda: I.call(I.getattr(obj.args[2], name), args,
                                       kwargs))
    from .interp import MUTATORS
    if op == "phi" and name in MUTATORS and \
            obj.args[1].uid != obj.uid != obj.args[2].uid and any(
                I.kid(obj, j).op in ("list", "dict", "set", "phi")
                for j in (1, 2)):
        return I.branch(obj.args[0], *[
            lambda j=j: I.call(I.getattr(I.kid(obj, j), name), args, kwargs)
            for j in (1, 2)])
    if op == "list":
        if obj.uid in I.either and name in MUTATORS:
            c, x, y = I.either[obj.uid]
            I.branch(c, *[lambda z=z: I.call(I.getattr(I.cur(z), name), args,
                                             kwargs) for z in (x, y)])
        r = _list_method(I, obj, name, args, kwargs)
        if r is not NotImplemented:
            return r
    if op in ("tuple",) and name == "index" and len(args) == 1:
        for i, x in enumerate(obj.args):
            if x.k == args[0].k:
                return const(i)
            if not (x.op == "const" and args[0].op == "const"):
                break
    if op == "dict":
        r = _dict_method(I, obj, name, args, kwargs)
        if r is not NotImplemented:
            return r
    if op == "const" and isinstance(cval(obj), str):
        r = _str_method(I, obj, name, args, kwargs)
        if r is not NotImplemented:
            return r
    if op == "ntuple" and name == "_asdict":
        return I.mk("dict", [(const(f), v) for f, v in
                             zip(obj.meta[1], obj.args)])
    if op == "ntuple" and name == "_replace":
        vals = list(obj.args)
        for q, v in kwargs.items():
            if q in obj.meta[1]:
                vals[obj.meta[1].index(q)] = v
        return I.mk("ntuple", vals, obj.meta)
    if name in ND_METHODS and I.tyof(obj).get("kind") not in (
            "DataArray", "Dataset"):
        if name == "transpose" and args:
            a = [obj, N("tuple", args) if len(args) > 1 else args[0]]
            return I.mk("numpy.transpose", a)
        if name == "swapaxes" or name not in ("dot",):
            a, ks = norm(I, "numpy." + name, [obj] + list(args), kwargs)
            n = I.mk("numpy." + name, a, ks)
            I.calls.append(("numpy." + name, n, I.loc, tuple(I.stack),
                            I.st.pc))
            return n
        return I.mk("numpy.dot", [obj] + list(args))
    if name == "reshape":
        sh = args[0] if len(args) == 1 else N("tuple", args)
        return I.mk("numpy.reshape", (obj, sh, const("C")))
    if name in ("items", "keys", "values") and not args and not kwargs:
        return I.mk("m:" + name, (obj,))
    if is_const(kwargs.get("inplace", NONE), True) or (
            "out" in kwargs and not is_none(kwargs["out"])):
        I.effect("mutate", kwargs["out"] if "out" in kwargs else obj,
                 "." + name, tuple(args))
    if name in MUTATORS and op not in ("const",):
        # mutation of an object the analysis has no literal contents for
        I.effect("mutate", obj, "." + name, tuple(args))
        ks = sorted(kwargs)
        res = I.mk("m:" + name, (obj,) + tuple(args) + tuple(
            kwargs[k] for k in ks), tuple(ks) or None)
        I.calls.append(("m:" + name, res, I.loc, tuple(I.stack), I.st.pc))
        if op not in ("extern", "module", "func", "class", "inst"):
            if name == "update":
                d = args[0] if args else N("dict", [
                    (const(q), kwargs[q]) for q in kwargs])
                if d.op == "tuple" and len(d.args) == 1:
                    d = d.args[0]
                new = N("updmany", (obj, d), uid=obj.uid, loc=I.loc)
            else:
                new = N("mutated", (obj,) + tuple(args), name, uid=obj.uid,
                        loc=I.loc)
            I.set_content(obj, new)
        if name in ("pop", "popitem", "remove"):
            I.mayraise.add("KeyError")
        return res
    if name == "copy" and not args and not kwargs:
        if op == "dict":
            return I.mk("dict", obj.args)
        I.mayraise.add("*")
        return I.mk("m:copy", (obj,))
    ks = sorted(kwargs)
    I.mayraise.add("*")
    n = I.mk("m:" + name, (obj,) + tuple(args) + tuple(kwargs[k] for k in ks),
             tuple(ks) or None)
    I.calls.append(("m:" + name, n, I.loc, tuple(I.stack), I.st.pc))
    return n


def _list_method(I, obj, name, args, kwargs):
    if name == "append":
        I.effect("mutate", obj, ".append", tuple(args))
        I.set_content(obj, N("list", obj.args + (args[0],), uid=obj.uid,
                             loc=obj.loc))
        return NONE
    if name == "extend":
        I.effect("mutate", obj, ".extend", tuple(args))
        I.set_content(obj, N("list", obj.args + tuple(_seglist(I, args[0])),
                             uid=obj.uid, loc=obj.loc))
        return NONE
    items = I.static_items(obj)
    if name == "pop":
        i = args[0] if args else const(-1)
        I.effect("mutate", obj, ".pop", tuple(args))
        if items is not None and i.op == "const":
            j = cval(i)
            if -len(items) <= j < len(items):
                v = items.pop(j)
                I.set_content(obj, N("list", items, uid=obj.uid))
                return v
            I.do_raise("IndexError", NONE)
        res = I.mk("item", (obj, i))
        I.set_content(obj, N("mutated", (obj, i), "pop", uid=obj.uid))
        return res
    if name == "insert" and args and args[0].op == "const":
        I.effect("mutate", obj, ".insert", tuple(args))
        if cval(args[0]) == 0:
            I.set_content(obj, N("list", (args[1],) + obj.args, uid=obj.uid))
            return NONE
        if items is not None:
            items.insert(cval(args[0]), args[1])
            I.set_content(obj, N("list", items, uid=obj.uid))
            return NONE
        I.set_content(obj, N("mutated", (obj,) + tuple(args), "insert",
                             uid=obj.uid))
        return NONE
    if name == "index" and items is not None and args[0].op == "const" and \
            all(x.op == "const" for x in items):
        for i, x in enumerate(items):
            if is_const(x, cval(args[0])):
                return const(i)
        I.do_raise("ValueError", NONE)
    if name == "copy":
        return I.mk("list", obj.args)
    if name == "reverse":
        I.effect("mutate", obj, ".reverse", ())
        if items is not None:
            I.set_content(obj, N("list", items[::-1], uid=obj.uid))
            return NONE
        segs = I.segments(N("reversed", (N("list", obj.args),)))
        I.set_content(obj, N("list", [
            s[1] if s[0] == "item" else N("condseg", s[1:])
            if s[0] == "cond" else N("mapseg", s[1:]) for s in segs],
            uid=obj.uid))
        return NONE
    return NotImplemented


def _dict_method(I, obj, name, args, kwargs):
    closed = all(k.op == "const" for k, _ in obj.args)
    if name == "items":
        return I.mk("list", [N("tuple", (k, v)) for k, v in obj.args]) \
            if closed else NotImplemented
    if name == "keys":
        return I.mk("list", [k for k, _ in obj.args]) if closed else \
            NotImplemented
    if name == "values":
        return I.mk("list", [v for _, v in obj.args]) if closed else \
            NotImplemented
    if name == "get":
        d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
        for k, v in obj.args:
            if k.k == args[0].k:
                return v
        if args[0].op == "const" and closed:
            return d
        if closed and len(obj.args) <= 8:
            import ast as _a
            r = d
            for k, v in reversed(obj.args):
                r = I.mkphi(I.truth(I.compare(_a.Eq(), args[0], k)), v, r)
            return r
        return I.mk("m:get", (obj,) + tuple(args))
    if name == "update":
        items = list(obj.args)
        new = []
        for x in args:
            if x.op == "tuple" and len(x.args) == 1 and x.args[0].op == "dict":
                x = x.args[0]
            if x.op in ("zip", "list"):
                y = _b_dict(I, [x], {})
                x = y if y.op == "dict" else x
            if x.op == "dict":
                new += list(x.args)
            else:
                new.append((N("dstar"), x))
        new += [(const(q), v) for q, v in kwargs.items()]
        I.effect("mutate", obj, ".update", tuple(args))
        for k, v in new:
            hit = [i for i, (kk, _) in enumerate(items) if kk.k == k.k and
                   k.op != "dstar"]
            if hit:
                items[hit[0]] = (k, v)
            else:
                items.append((k, v))
        I.set_content(obj, N("dict", items, uid=obj.uid, loc=obj.loc))
        return NONE
    if name == "pop" and closed and args and args[0].op == "const":
        I.effect("mutate", obj, ".pop", tuple(args))
        for k, v in obj.args:
            if k.k == args[0].k:
                I.set_content(obj, N("dict", [
                    (a, b) for a, b in obj.args if a.k != k.k], uid=obj.uid))
                return v
        if len(args) > 1:
            return args[1]
        I.do_raise("KeyError", NONE)
    if name == "copy":
        return I.mk("dict", obj.args)
    if name == "setdefault" and closed and args and args[0].op == "const":
        for k, v in obj.args:
            if k.k == args[0].k:
                return v
        I.effect("mutate", obj, ".setdefault", tuple(args))
        v = args[1] if len(args) > 1 else NONE
        I.set_content(obj, N("dict", obj.args + ((args[0], v),),
                             uid=obj.uid))
        return v
    return NotImplemented


_STR_OK = {"replace", "lower", "upper", "capitalize", "strip", "lstrip",
           "rstrip", "split", "startswith", "endswith", "index", "find",
           "join", "title", "count", "isdigit", "partition", "rindex",
           "rfind", "rpartition", "rsplit", "casefold", "swapcase",
           "isalpha", "isnumeric", "isupper", "islower", "removeprefix",
           "removesuffix", "zfill"}


def _str_method(I, obj, name, args, kwargs):
    s = cval(obj)
    if name in _STR_OK and not kwargs and all(a.op == "const" for a in args):
        try:
            r = getattr(s, name)(*[cval(a) for a in args])
        except (ValueError, IndexError) as e:
            I.do_raise(type(e).__name__, NONE)
        except Exception:
            return NotImplemented
        if isinstance(r, (list, tuple)):
            return I.mk("list" if isinstance(r, list) else "tuple",
                        [const(x) for x in r])
        return const(r)
    if name == "translate" and len(args) == 1 and not kwargs:
        m = args[0]
        if m.op == "builtins.str.maketrans" and len(m.args) in (2, 3) and \
                all(x.op == "const" and isinstance(cval(x), str)
                    for x in m.args):
            try:
                return const(s.translate(str.maketrans(
                    *[cval(x) for x in m.args])))
            except ValueError:
                I.do_raise("ValueError", NONE)
        if m.op == "dict" and all(
                k.op == v.op == "const" and type(cval(k)) is int and
                isinstance(cval(v), (str, int, type(None)))
                for k, v in m.args):
            return const(s.translate({cval(k): cval(v) for k, v in m.args}))
    if name == "join" and len(args) == 1:
        it = I.static_items(args[0])
        if it is not None and all(x.op == "const" for x in it):
            return const(s.join(str(cval(x)) for x in it))
    if name == "format" and not kwargs and s.count("{}") == len(args) and \
            s.count("{") == len(args):
        parts = []
        for i, p in enumerate(s.split("{}")):
            if p:
                parts.append(const(p))
            if i < len(args):
                parts.append(args[i])
        if all(x.op == "const" for x in parts):
            return const("".join(str(cval(x)) for x in parts))
        return I.mk("fstr", parts)
    if name in ("index", "rindex"):
        I.mayraise.add("ValueError")
    return NotImplemented
