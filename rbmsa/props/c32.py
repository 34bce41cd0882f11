"""C32: poses imported from an OptiTrack export are those in the file."""
import re
from datetime import datetime

from ..ctx import N, const, show, sym
from ..dom.algebra import Alg
from ..dom.arrays import Arr, ArrayEval, Bail, Err, Top, compare
from ..ir import cval, is_const
from . import formula as F_
from .c30 import euler

RULE = "imported"
TEXT = ("for a file with two rigid bodies and a marker, each returned "
        "position, orientation and time stamp is the specified expression of "
        "the cells of the file")
# header of the export by line number (line 1 is blank)
LEVELS = {2: "type", 3: "body", 4: "id", 5: "motion", 6: "axis"}
BODIES = ("A", "B")
# how the start of a recording is written
STARTS = {
    "2020-06-16 07.51.41.245 PM": datetime(2020, 6, 16, 19, 51, 41, 245000),
    "2021-03-04 12.05.36.007 AM": datetime(2021, 3, 4, 0, 5, 36, 7000)}


def columns():
    """(type, body, id, motion, axis) of each column, and its value."""
    out = [(("", "", "", "", "Frame"), "frame"),
           (("", "", "", "", "Time (Seconds)"), "time")]
    for ty, b, motions in (("Rigid Body", "A", ("Rotation", "Position")),
                           ("Rigid Body", "B", ("Rotation", "Position")),
                           ("Marker", "A:Marker1", ("Position",))):
        for m in motions:
            for c in "XYZ":
                out.append(((ty, b, "id" + b, m, c), f"{b}.{m}.{c}"))
    return out


class Table:
    """Columns with labels and values; the value of the index."""

    def __init__(self, cols, index, names=None):
        self.cols = cols            # [(label tuple, value)]
        self.index = index
        self.names = names

    def take(self, k, v):
        c = [(lab[:k] + lab[k + 1:], x) for lab, x in self.cols
             if lab[k] == v]
        return Table(c, self.index)

    def __repr__(self):
        return f"table with columns {[c[0] for c in self.cols]}"


class Stamps:
    """start + delta"""

    def __init__(self, start=None, delta=None, array=False):
        self.start, self.delta, self.array = start, delta, array

    def __repr__(self):
        return f"{self.start or '0'} + {self.delta!r}"


class Iloc:
    def __init__(self, table):
        self.table = table


class Raw:
    """An index which is not made of time stamps."""

    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return "rows numbered" if self.value is None else repr(self.value)


class Cols:
    def __init__(self, labels, names=None):
        self.labels, self.names = labels, names


class Labelled:
    """A DataArray made of a table."""

    def __init__(self, table, dims, name):
        self.table, self.dims, self.name = table, dims, name


def opts(n, names):
    """Arguments of a library call by name."""
    kw = n.meta if isinstance(n.meta, tuple) else ()
    pos = n.args[:len(n.args) - len(kw)]
    d = dict(zip(names, pos))
    d.update(zip(kw, n.args[len(pos):]))
    return d


class Eval(ArrayEval):
    def table(self, n):
        v = self.ev(n)
        if isinstance(v, (Top, Err)):
            raise Bail(v)
        if not isinstance(v, Table):
            raise Bail(Top(f"not a table: {show(n, 3)}", n.loc))
        return v

    def stamps(self, n):
        v = self.ev(n)
        if isinstance(v, (Top, Err)):
            raise Bail(v)
        return v

    def lit(self, n):
        v = self.val(n)
        if isinstance(v, (str, int, bool)) or v is None:
            return v
        if isinstance(v, (list, tuple)):
            return [self.plain(x) for x in v]
        raise Bail(Top(f"not a constant: {show(n, 3)}", n.loc))

    def o_pandas_read_csv(self, n):
        o = opts(n, ["filepath_or_buffer"])
        src = o.pop("filepath_or_buffer")
        if src.op != "in":
            return Top("file", n.loc)
        o = {k: self.lit(v) for k, v in o.items()}
        rows, idx = o.pop("header", 0), o.pop("index_col", None)
        blank = o.pop("skip_blank_lines", True)
        if o or not isinstance(rows, list):
            return Top("options of read_csv", n.loc)
        # with blank lines skipped the header moves up by one line
        rows = [r + 1 if blank and r >= 1 else r for r in rows]
        if any(r not in LEVELS for r in rows):
            return Err(f"lines {rows} are not all header lines", n.loc)
        k = [r - 2 for r in rows]
        cols = [(tuple(lab[i] for i in k), self.alg.var(v))
                for lab, v in columns()]
        index = None
        if idx in (0, [0]):
            index, cols = cols[0][1], cols[1:]
        elif idx is not None:
            return Top("index of the table", n.loc)
        return Table(cols, index)

    # ------------------------------------------------------------ selecting
    def o_item(self, n):
        d = n.args[0]
        if d.op == "dict" and n.args[1].op == "const" and all(
                k.op in ("const", "in") for k, _ in d.args):
            # the start of the recording is not the name of an entry
            for k, v in d.args:
                if k.op == "const" and cval(k) == cval(n.args[1]):
                    return self.ev(v)
            return Err(f"no entry {cval(n.args[1])!r}", n.loc)
        b = self.ev(d)
        if isinstance(b, Iloc):
            v = self.index(self.cells(b.table), self.val(n.args[1]), n.loc)
            return v if len(v.axes) == 1 else Top("rows by number", n.loc)
        if isinstance(b, Table):
            key = self.lit(n.args[1])
            keys = key if isinstance(key, list) else [key]
            t = b
            if any(not isinstance(q, str) for q in keys):
                return Top("selection", n.loc)
            if not isinstance(key, list) or n.args[1].op == "tuple":
                for q in keys:
                    t = t.take(0, q)
                    if not t.cols:
                        return Err(f"no column {q!r}", n.loc)
                if len(t.cols) == 1 and t.cols[0][0] == ():
                    return Arr(("t",), {(): t.cols[0][1]})
                return t
            if all(len(lab) == 1 for lab, _ in b.cols):
                d = dict(b.cols)
                if any((q,) not in d for q in keys):
                    return Err(f"no columns {keys}", n.loc)
                return Table([((q,), d[q,]) for q in keys], b.index)
            return Top("selection", n.loc)
        return super().o_item(n)

    def o_group(self, n):
        b = self.table(n.args[0])
        return Table([c for c in b.cols if c[0][0] == self.lit(n.args[1])],
                     b.index, b.names)

    def o_m_xs(self, n):
        o = opts(n, ["self", "key", "axis", "level"])
        b = self.table(o["self"])
        lev = self.lit(o["level"]) if "level" in o else 0
        if self.lit(o.get("axis", const(0))) not in (1, "columns"):
            return Err("a row is selected by a label of columns", n.loc)
        if isinstance(lev, str) and b.names:
            if lev not in b.names:
                return Err(f"no level {lev!r}", n.loc)
            lev = b.names.index(lev)
        if not isinstance(lev, int):
            return Top("level by name", n.loc)
        return b.take(lev, self.lit(o["key"]))

    def o_update(self, n):
        b = self.ev(n.args[0])
        if not isinstance(b, Table):
            return super().o_update(n)
        key, v = self.lit(n.args[1]), self.ev(n.args[2])
        if not isinstance(key, str) or not isinstance(v, Table):
            return Top("assignment", n.loc)
        d = {(key,) + lab: x for lab, x in v.cols}
        cols = [(lab, d.pop(lab, None) if lab[0] == key else x)
                for lab, x in b.cols]
        if any(x is None for _, x in cols):
            return Err("assigned columns have other labels (missing values)",
                       n.loc)
        return Table(cols + list(d.items()), b.index)

    # ------------------------------------------------------- parts of tables
    def o_attr(self, n):
        b = self.ev(n.args[0])
        if isinstance(b, Table):
            if n.meta in ("values", "array"):
                return self.cells(b)
            if n.meta == "index":
                return b.index if isinstance(b.index, Stamps) else Raw(
                    b.index)
            if n.meta == "columns":
                return Cols([lab for lab, _ in b.cols], b.names)
            if n.meta == "iloc":
                return Iloc(b)
            if n.meta == "T":
                return Top("transposed table", n.loc)
            t = b.take(0, n.meta)
            return t if t.cols else Err(f"no column {n.meta!r}", n.loc)
        if isinstance(b, Cols) and n.meta == "str":
            return b
        if isinstance(b, (Stamps, Raw)) and n.meta == "values":
            return Stamps(b.start, b.delta, True) if isinstance(
                b, Stamps) else b
        if isinstance(b, (Stamps, Raw)) and n.meta == "name":
            return Top("name of the index", n.loc)
        return super().o_attr(n)

    def index(self, a, ix, loc=None):
        it = list(ix) if isinstance(ix, tuple) else [ix]
        if a.cells and a.axes[:1] == ("t",) and it and isinstance(
                it[0], int) and not isinstance(it[0], bool):
            # one row: other values than those of the rows
            a = Arr(a.axes[1:], {k: self.alg.var(f"row {it[0]} of {c!r}")
                                 for k, c in a.cells.items()})
            return super().index(a, tuple(it[1:]), loc)
        return super().index(a, ix, loc)

    def cells(self, b):
        return Arr(("t", len(b.cols)),
                   {(j,): x for j, (_, x) in enumerate(b.cols)})

    def as_arr(self, v, loc=None):
        if isinstance(v, Table):
            return self.cells(v)
        return super().as_arr(v, loc)

    def o_m_to_numpy(self, n):
        b = self.ev(n.args[0])
        return self.cells(b) if isinstance(b, Table) else b if isinstance(
            b, (Arr, Stamps)) else Top(n.op, n.loc)

    def o_m_lower(self, n):
        b = self.ev(n.args[0])
        if isinstance(b, Cols):
            return Cols([tuple(x.lower() for x in lab) for lab in b.labels])
        return Top(n.op, n.loc)

    def o_m_set_names(self, n):
        b = self.ev(n.args[0])
        if not isinstance(b, Cols) or len(n.args) != 2:
            return Top(n.op, n.loc)
        names = self.lit(n.args[1])
        if not isinstance(names, list) or any(
                len(lab) != len(names) for lab in b.labels):
            return Err(f"{len(b.labels[0])} levels named {names}", n.loc)
        return Cols(b.labels, names)

    def o_setattr(self, n):
        b = self.ev(n.args[0])
        if isinstance(b, Table):
            v = self.ev(n.args[1])
            if n.meta == "columns" and isinstance(v, Cols):
                if len(v.labels) != len(b.cols):
                    return Err("number of column labels", n.loc)
                return Table(list(zip(v.labels, [x for _, x in b.cols])),
                             b.index, v.names)
            if n.meta == "columns" and isinstance(v, (list, tuple)) and all(
                    isinstance(x, str) for x in v):
                if len(v) != len(b.cols):
                    return Err("number of column labels", n.loc)
                return Table([((lab,), x) for lab, (_, x) in
                              zip(v, b.cols)], b.index)
            if isinstance(v, Err):
                return v
            if n.meta == "index" and isinstance(v, Stamps):
                return Table(b.cols, v, b.names)
            return Top(f"assignment to {n.meta}", n.loc)
        return super().o_setattr(n)

    def o_m_set_index(self, n):
        b, v = self.table(n.args[0]), self.stamps(n.args[1])
        if not isinstance(v, Stamps) or len(n.args) > 2:
            return Top(n.op, n.loc)
        return Table(b.cols, v, b.names)

    def o_m_rename_axis(self, n):
        o = opts(n, ["self", "name"])
        b = self.table(o.pop("self"))
        if set(o) != {"name"} and set(o) != {"index"}:
            return Top(n.op, n.loc)
        return b

    def o_m_copy(self, n):
        return self.ev(n.args[0])

    def o_m_rename(self, n):
        b = self.table(n.args[0])
        o = opts(n, ["self"])
        f = o.get("columns")
        if set(o) == {"self", "columns"} and f.op == "extern" and \
                f.meta in ("builtins.str.lower", "str.lower"):
            return Table([(tuple(x.lower() for x in lab), v)
                          for lab, v in b.cols], b.index)
        return Top(n.op, n.loc)

    # ----------------------------------------------------------- arithmetic
    def o_binop(self, n):
        a, b = self.ev(n.args[0]), self.ev(n.args[1])
        for x in (a, b):
            if isinstance(x, (Top, Err)):
                return x
        if isinstance(a, Table) and isinstance(b, (int, float)):
            x = self.alg.num(b)
            f = {"/": lambda c: c / x, "*": lambda c: c * x,
                 "+": lambda c: c + x, "-": lambda c: c - x}.get(n.meta)
            if f is None:
                return Top("arithmetic", n.loc)
            return Table([(lab, f(c)) for lab, c in a.cols], a.index)
        if isinstance(b, Table) and isinstance(a, (int, float)) and \
                n.meta == "*":
            return Table([(lab, c * self.alg.num(a)) for lab, c in b.cols],
                         b.index)
        if isinstance(a, Stamps) and isinstance(b, Stamps) and n.meta == "+":
            if a.start and b.start or a.delta is not None and \
                    b.delta is not None:
                return Top("sum of stamps", n.loc)
            return Stamps(a.start or b.start,
                          a.delta if a.delta is not None else b.delta)
        if isinstance(a, (Table, Stamps)) or isinstance(b, (Table, Stamps)):
            return Top("arithmetic", n.loc)
        return super().o_binop(n)

    def o_numpy_deg2rad(self, n):
        f = self.alg.var("pi") / self.alg.num(180)
        v = self.ev(n.args[0])
        if isinstance(v, Table):
            return Table([(lab, c * f) for lab, c in v.cols], v.index)
        return self.elementwise(lambda x: x * f, self.as_arr(v))

    o_numpy_radians = o_numpy_deg2rad

    def o_numpy_rad2deg(self, n):
        f = self.alg.num(180) / self.alg.var("pi")
        return self.elementwise(lambda x: x * f, self.arr(n.args[0]))

    o_numpy_degrees = o_numpy_rad2deg

    # ----------------------------------------------------------------- time
    def o_pandas_to_datetime(self, n):
        o = opts(n, ["arg"])
        v = o.pop("arg")
        f = o.pop("format", None)
        if o or f is None or f.op != "const":
            return Top("options of to_datetime", n.loc)
        if v.op != "in" or v.meta[0] != "start":
            e = self.ev(v)
            return e if isinstance(e, Err) else Top("start " + show(v, 3),
                                                    n.loc)
        f = cval(f)
        for text, want in STARTS.items():
            try:
                got = datetime.strptime(text, f)
            except (ValueError, re.error):
                got = "not accepted"
            if got != want:
                return Err(f"the start {text!r} read as {f!r} is {got}",
                           n.loc)
        return Stamps("start")

    def o_pandas_to_timedelta(self, n):
        o = opts(n, ["arg", "unit"])
        v, u = self.ev(o["arg"]), self.lit(o.get("unit", const("ns")))
        if isinstance(v, Table) and len(v.cols) == 1:
            v = Arr(("t",), {(): v.cols[0][1]})
        k = {"s": 1, "sec": 1, "second": 1, "seconds": 1, "S": 1,
             "ms": 1e-3, "us": 1e-6, "ns": 1e-9, "m": 60, "min": 60,
             "h": 3600, "D": 86400}.get(u)
        if isinstance(v, (Top, Err)):
            return v
        if isinstance(v, Raw) and v.value is not None:
            v = Arr(("t",), {(): v.value})
        if not isinstance(v, Arr) or v.axes != ("t",) or k is None or \
                v.cells is None:
            return Top("to_timedelta", n.loc)
        return Stamps(None, v.cells[()] * self.alg.num(k))

    # --------------------------------------------------------- new tables
    def o_pandas_DataFrame(self, n):
        o = opts(n, ["data", "index", "columns"])
        v = self.arr(o["data"])
        idx = self.ev(o["index"]) if "index" in o else None
        c = self.lit(o["columns"]) if "columns" in o else None
        if v.axes[:1] != ("t",) or len(v.axes) != 2 or not isinstance(
                v.axes[1], int):
            return Err(f"rows of axes {list(v.axes)}", n.loc)
        if isinstance(idx, Raw):
            idx = idx.value
        elif idx is not None and not isinstance(idx, Stamps):
            return Top("index of a table", n.loc)
        if c is None or len(c) != v.axes[1]:
            return Top("columns of a table", n.loc)
        return Table([((x,), v.cells[j,]) for j, x in enumerate(c)], idx)

    def o_pandas_concat(self, n):
        o = opts(n, ["objs", "axis"])
        if set(o) - {"objs", "axis", "keys"}:
            return Top("concat", n.loc)
        if self.lit(o.get("axis", const(0))) not in (1, "columns"):
            return Err("position and orientation in different rows", n.loc)
        x = o["objs"]
        if x.op == "dict":
            parts = [(self.lit(k), self.table(v)) for k, v in x.args]
        elif x.op in ("list", "tuple") and "keys" in o:
            parts = list(zip(self.lit(o["keys"]),
                             [self.table(v) for v in x.args]))
        else:
            return Top("concat", n.loc)
        return Table([((k,) + lab, c) for k, t in parts
                      for lab, c in t.cols], parts[0][1].index)

    def o_xarray_DataArray(self, n):
        o = opts(n, ["data", "coords", "dims", "name", "attrs"])
        if "coords" in o and not is_const(o["coords"], None):
            return Top("coordinates", n.loc)
        t = self.ev(o["data"])
        if not isinstance(t, Table):
            return Top("data of an array", n.loc)
        return Labelled(t, self.lit(o["dims"]) if "dims" in o else None,
                        self.lit(o["name"]) if "name" in o else None)


def check(ctx, rep):
    rep.rule(RULE, TEXT)
    for unit in (None, "Centimeters", "Meters"):
        for order in (None, "XYZ", "ZYX", "XZY", "YXZ", "YZX", "ZXY"):
            for fmt in ("numpy", "pandas", "xarray"):
                if unit != "Centimeters" and order not in (None, "ZYX") and \
                        not ctx.deep:
                    continue
                case(ctx, rep, unit, order, fmt)
    rep.rule("rejects", "other import formats reach a raise of ValueError")
    for fmt in ("", "Numpy", "dict"):
        construct = f"load_optitrack(import_format={fmt!r})"

        def run(fmt=fmt, construct=construct):
            I, r = load(ctx, "Centimeters", "XYZ", fmt)
            t = F_.taken(I, Eval(Alg(), {}))
            hows = {e.how for e in I.raises}
            if t is F_.MAYBE and r is None and "ValueError" in hows and \
                    hows <= {"ValueError", "ModuleNotFoundError"}:
                rep.ok("rejects", construct)
            elif t is F_.MAYBE:
                rep.unknown("rejects", construct, "conditions of the raises")
            elif t is None:
                rep.check(False, "rejects", construct, "accepted")
            else:
                rep.check(t.how == "ValueError", "rejects", construct,
                          str(t.how), t.loc)
        ctx.guarded("rejects", construct, run)


def load(ctx, unit, order, fmt):
    I = ctx.interp()

    def read(I, a, k):
        if "nrows" in k:
            row = [("Format Version", const("1.22")),
                   ("Capture Frame Rate", const("240")),
                   ("Capture Start Time", sym("start", nonnull=True,
                                              kind="str"))]
            if unit:
                row.append(("Length Units", const(unit)))
            if order:
                row.append(("Rotation Type", const(order)))
            li = N("list", tuple(x for k, v in row for x in (const(k), v)))
            return N("ntuple", (N("list", (li,)),), ("Header", ("values",)))
        ks = sorted(k)
        return I.mk("pandas.read_csv", tuple(a) + tuple(k[x] for x in ks),
                    tuple(ks) or None)

    def groups(I, a, k):
        o = dict(zip(("self", "by", "axis", "level"), a))
        o.update(k)
        by = [o[q] for q in ("by", "level") if q in o]
        if len(by) != 1 or not is_const(by[0], 0) or not is_const(
                o.get("axis", const(0)), 1) or set(o) - {
                    "self", "by", "level", "axis"}:
            return NotImplemented
        return N("list", tuple(N("tuple", (const(b), I.mk(
            "group", (I.cur(a[0]), const(b))))) for b in BODIES))
    def to_numpy(I, a, k):
        if a[0].op == "ntuple" and a[0].meta[0] == "Header":
            return a[0].args[0]
        return NotImplemented
    I.extern_hooks["pandas.read_csv"] = read
    I.method_hooks["to_numpy"] = to_numpy
    I.method_hooks["groupby"] = groups
    r = ctx.run(I, ctx.at(I, "io", "load_optitrack"),
                [sym("file", nonnull=True, kind="str"), const(fmt)])
    return I, r


def case(ctx, rep, unit, order, fmt):
    construct = f"load_optitrack({fmt}; units {unit or 'not given'}, " \
        f"rotation {order or 'not given'})"

    def run():
        I, r = load(ctx, unit, order, fmt)
        E = Eval(Alg(), {})
        al = E.alg
        ra = F_.taken(I, E)
        if r is None or ra is not None and ra is not F_.MAYBE:
            rep.check(False if ra is not F_.MAYBE and ra is not None else
                      None, RULE, construct, "raises " + ", ".join(
                          sorted({str(e.how) for e in I.raises})),
                      ra.loc if hasattr(ra, "loc") else None)
            return
        if r.op != "dict" or any(k.op != "const" for k, _ in r.args):
            rep.unknown(RULE, construct, "result " + show(r, 2), r.loc)
            return
        rep.check(sorted(cval(k) for k, _ in r.args) == list(BODIES), RULE,
                  construct + ": bodies",
                  ", ".join(str(cval(k)) for k, _ in r.args))
        for k, v in r.args:
            one(rep, E, construct + f": body {cval(k)}", fmt, v, cval(k),
                unit, order)
    ctx.guarded(RULE, construct, run)


def one(rep, E, construct, fmt, n, body, unit, order):
    al = E.alg
    scale = al.num(1) / al.num(100) if unit == "Centimeters" else al.num(1)
    pos = Arr(("t", 3), {(j,): al.var(f"{body}.Position.{c}") * scale
                         for j, c in enumerate("XYZ")})
    rad = al.var("pi") / al.num(180)
    ang = {a: al.var(f"{body}.Rotation.{c}") * rad
           for a, c in zip("rpy", "XYZ")}
    q = euler(E, ang, "".join("rpy"["XYZ".index(c)]
                              for c in order or "XYZ"))
    ori = Arr(("t", 4), {(j,): c for j, c in enumerate(q)})

    def ob(st, what, txt="", loc=None):
        rep.check(st, RULE, f"{construct}: {what}", txt, loc or n.loc)

    def arr(v, want, what):
        rep.count("cells_compared", len(want.cells))
        if isinstance(v, Table):
            v = E.cells(v)
        ob(*compare(al, v, want)[:1], what, compare(al, v, want)[1],
           getattr(v, "loc", None))

    def stamps(v):
        if isinstance(v, Err):
            ob(False, "time stamps", v.msg, v.loc)
        elif isinstance(v, Top):
            ob(None, "time stamps", repr(v))
        elif not isinstance(v, Stamps):
            ob(False, "time stamps", "rows are not labelled by time stamps")
        elif fmt == "numpy" and not v.array:
            ob(False, "time stamps", "not an array")
        elif v.start is None or v.delta is None:
            ob(False, "time stamps", "start of the recording missing"
               if v.start is None else "times of the samples missing")
        else:
            ob(al.compare(v.delta, al.var("time")), "time stamps",
               f"start + {v.delta!r}")

    def labels(t, want, what):
        got = [lab for lab, _ in t.cols]
        ob(got == want, what, str(got))
    p3, q4 = [(c,) for c in "xyz"], [(c,) for c in "wxyz"]
    if fmt == "numpy":
        v = n
        if v.op not in ("tuple", "list") or len(v.args) != 3:
            ob(None if v.op not in ("tuple", "list") else False, "parts",
               show(v, 2))
            return
        arr(E.ev(v.args[0]), pos, "position")
        arr(E.ev(v.args[1]), ori, "orientation")
        stamps(E.ev(v.args[2]))
    elif fmt == "pandas":
        t = E.ev(n)
        if not isinstance(t, Table):
            ob(False if isinstance(t, Err) else None, "table",
               t.msg if isinstance(t, Err) else repr(t),
               getattr(t, "loc", None))
            return
        for what, want, labs in (("position", pos, p3),
                                 ("orientation", ori, q4)):
            s = t.take(0, what)
            if [x for x, _ in s.cols] and sorted(
                    x for x, _ in s.cols) == sorted(labs):
                d = dict(s.cols)
                arr(Table([(x, d[x]) for x in labs], None), want, what)
            labels(s, labs, f"columns of the {what}")
        ob(len(t.cols) == 7, "seven columns", f"{len(t.cols)}")
        stamps(t.index)
    else:
        das = n.args[0] if n.op == "xarray.merge" else n
        if das.op not in ("tuple", "list"):
            ob(None, "parts", show(n, 2))
            return
        seen = {}
        for a in das.args:
            v = E.ev(a)
            if not isinstance(v, Labelled):
                ob(False if isinstance(v, Err) else None, "part",
                   v.msg if isinstance(v, Err) else show(a, 2))
                return
            seen[v.name] = v
        ob(set(seen) == {"position", "orientation"}, "names",
           ", ".join(map(str, seen)))
        for what, want, dim, labs in (
                ("position", pos, "cartesian_axis", p3),
                ("orientation", ori, "quaternion_axis", q4)):
            if what not in seen:
                continue
            v = seen[what]
            ob(v.dims == ["time", dim], f"dimensions of the {what}",
               str(v.dims))
            labels(v.table, labs, f"labels of the {what}")
            arr(v.table, want, what)
            stamps(v.table.index)
