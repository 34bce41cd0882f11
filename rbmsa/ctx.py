"""Shared set-up for the property modules."""
import traceback

from . import lib
from .dom import frames as F
from .interp import Budget, Dead, Interp, facets, sym
from .ir import FALSE, NONE, TRUE, N, const, cval, is_const, is_none, show, walk
from .program import PKG, AnalysisError, Program

U = PKG + ".utils."


# properties of values, not of counts, places or effects
EXACT = {"C01", "C02", "C03", "C04", "C05", "C07", "C08", "C19", "C20", "C22", "C23",
         "C24",         "C30", "C31", "C33", "C35", "C36", "C37"}


class Missing(AnalysisError):
    """A private helper a rule looks at is gone."""


class Ctx:
    def __init__(self, rep, program=None):
        self.rep = rep
        self.p = program or Program()
        self.lost = set()
        self.deep = rep.tier == "thorough"

    def interp(self, opaque=(), **kw):
        I = Interp(self.p, **kw)
        I.load_all()
        for q, op in opaque:
            if q not in self.p.funcs:
                continue
            I.overrides[q] = _opq(op)
        return I

    def rot_interp(self, **kw):
        """Interpreter in which the rotation primitives are atomic."""
        return self.interp(ROT_PRIMS, **kw)

    @property
    def C(self):
        c = self.p.classes.get(PKG + ".reference_frames.ReferenceFrame")
        if c is None:
            c = next((c for c in self.p.classes.values()
                      if c.name == "ReferenceFrame"), None)
        if c is None:
            raise AnalysisError("class ReferenceFrame not found")
        return c

    def frame(self, name, **kw):
        return sym(name, cls=self.C, nonnull=True, kind="frame", **kw)

    def public(self, I, name):
        """A function exported by the package root."""
        m = I.st.envs.get("mod:" + PKG, {})
        if name not in m:
            raise AnalysisError(f"public function {name} not found")
        return m[name]

    def at(self, I, module, name):
        m = I.st.envs.get("mod:" + PKG + ("." + module if module else ""), {})
        if name not in m:
            raise Missing(f"{module}.{name} not found")
        return m[name]

    def registry(self, I):
        """The dict of registered frames (exported as `registry`)."""
        try:
            return self.at(I, "reference_frames", "_registry")
        except Missing:
            return self.at(I, "", "registry")

    def run(self, I, f, args, kwargs=None):
        """Result node, or None when every path raises."""
        try:
            r = I.call(f, list(args), dict(kwargs or {}))
        except Dead:
            return None
        finally:
            self.rep.seen(I)
        if self.rep.prop in EXACT:
            self.kept(I, r)
        return r

    def kept(self, I, r):
        """No value on its way to the result is rounded or narrowed."""
        self.rep.rule("kept", "no value that enters the result is rounded or "
                              "cast to a narrower type")
        self.rep.count("results_searched_for_lossy_steps")
        if r is None:
            return
        st, seen = [r], set()
        while st:
            n = st.pop()
            if n.k in seen:
                continue
            seen.add(n.k)
            why = lib.lossy(n)
            if why and (why, n.loc) not in self.lost:
                self.lost.add((why, n.loc))
                self.rep.bad("kept", why, show(n, 3), n.loc)
            # not what selects a value or a place in it
            a = n.args[1:] if n.op in ("phi", "loop", "last") else \
                n.args[:1] if n.op in ("item", "elem", "numpy.take") else \
                () if n.op in ("cmp", "truth", "isinst", "in") else n.args
            for x in a:
                if isinstance(x, N):
                    st.append(x)
                elif isinstance(x, tuple):
                    st.extend(y for y in x if isinstance(y, N))

    def guarded(self, rule, construct, fn):
        """Run one obligation; analysis failures leave it undecided."""
        try:
            fn()
        except Missing as e:
            self.rep.unknown(rule, construct, str(e))
        except AnalysisError:
            raise
        except Dead:
            self.rep.unknown(rule, construct, "every path raises")
        except Budget as e:
            self.rep.unknown(rule, construct, str(e))
        except RecursionError:
            self.rep.unknown(rule, construct, "recursion limit")
        except Exception as e:      # a modelling gap, never a verdict
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.rep.unknown(rule, construct,
                             f"analysis gap: {type(e).__name__}: {e} "
                             f"at {tb.filename.rsplit('/', 1)[-1]}:{tb.lineno}")


def _opq(op):
    def f(I, args, kwargs):
        names = {"op:rotate": ["q", "v", "axis"], "op:qinv": ["q", "qaxis"]}
        a = list(args)
        for nm in names.get(op, [])[len(a):]:
            a.append(kwargs.get(nm, const(-1)))
        return I.mk(op, tuple(a))
    return f


ROT_PRIMS = [(U + "rotate_vectors", "op:rotate"), (U + "qinv", "op:qinv"),
             (U + "qmul", "op:qmul")]


def tuple_items(n, k):
    """Components of a k-tuple value (through joins), or None."""
    if n is None:
        return None
    if n.op in ("tuple", "list", "ntuple") and len(n.args) == k:
        return list(n.args)
    if n.op == "phi":
        a, b = tuple_items(n.args[1], k), tuple_items(n.args[2], k)
        if a is None or b is None:
            return None
        return [x if x.k == y.k else N("phi", (n.args[0], x, y))
                for x, y in zip(a, b)]
    return None


def judge(rep, rule, construct, got, want, loc=None):
    """Compare an inferred frame type with the specified one."""
    loc = getattr(got, "loc", None) or loc
    if isinstance(got, F.Err):
        rep.bad(rule, construct, got.msg, loc)
    elif isinstance(got, F.Top):
        rep.unknown(rule, construct, f"no type inferred ({got.why})", loc)
    elif isinstance(got, F.Vec) and isinstance(want, F.Vec):
        if got == want:
            rep.ok(rule, construct, f"inferred {got}", loc)
        else:
            rep.bad(rule, construct, f"inferred {got}, specified {want}", loc)
    elif got == want:
        rep.ok(rule, construct, f"inferred {got}", loc)
    elif isinstance(got, (F.Vec, F.Rot, F.IdRot)):
        rep.bad(rule, construct, f"inferred {got}, specified {want}", loc)
    else:
        rep.unknown(rule, construct, f"inferred {got}", loc)
