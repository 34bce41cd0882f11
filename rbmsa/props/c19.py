"""C19: coordinate-system conversions follow their definitions."""
from ..ctx import TRUE, FALSE, const, show, sym
from ..dom.arrays import Arr
from . import formula as F_
from .formula import build, case, comps

DISPATCH = "conversion-dispatch"


def polar(E, v):
    x, y = v
    return [E.alg.sqrt(x * x + y * y), E.alg.angle(x, y)]


def from_polar(E, v):
    r, p = v
    return [r * E.alg.cos(p), r * E.alg.sin(p)]


def spherical(E, v):
    x, y, z = v
    a = E.alg
    r = a.sqrt(x * x + y * y + z * z)
    return [r, a.angle(z, a.sqrt(x * x + y * y)), a.angle(x, y)]


def from_spherical(E, v):
    r, t, p = v
    a = E.alg
    return [r * a.sin(t) * a.cos(p), r * a.sin(t) * a.sin(p), r * a.cos(t)]


FN = {("cartesian", "polar"): (polar, 2), ("polar", "cartesian"):
      (from_polar, 2), ("cartesian", "spherical"): (spherical, 3),
      ("spherical", "cartesian"): (from_spherical, 3)}
SYSTEMS = ("cartesian", "polar", "spherical")
LAYOUTS = [((), -1), (("t",), -1), (("t",), 0), (("t", "n"), 1),
           (("t", "n"), -1), (("t", "n"), 0), (("t", "n"), -2),
           (("t", "n", "m"), 2), (("t", "n", "m"), -4), (("t",), 1),
           (("t", "n"), 2)]
SMALL = [((1,), 0), ((1,), -1), ((2,), 0), ((3,), -1), ((3,), 0), ((2,), 1)]


def check(ctx, rep):
    for (a, b), (spec, n) in FN.items():
        for batch, ax in SMALL:
            axes = list(batch)
            axes.insert(ax % 2, n)

            def want(E, arrs, spec=spec, ax=ax, n=n):
                return F_.mapped([(arrs["arr"], ax)],
                                 lambda v: spec(E, v), n, ax)
            case(ctx, rep, f"coordinate_systems.{a}_to_{b}",
                 {"arr": tuple(axes)}, {"axis": ax}, want, name=f"{a}_to_{b}")
        for batch, ax in LAYOUTS:
            axes = list(batch)
            axes.insert(ax % (len(batch) + 1), n)
            kw = {"axis": ax}

            def want(E, arrs, spec=spec, ax=ax):
                v = arrs["arr"]
                return build(v.axes, ax, spec(E, comps(v, ax)))
            case(ctx, rep, f"coordinate_systems.{a}_to_{b}",
                 {"arr": tuple(axes)}, kw, want, name=f"{a}_to_{b}")
    dispatch(ctx, rep)


def dispatch(ctx, rep):
    rep.rule(DISPATCH, "transform_coordinates applies exactly the conversion "
                       "named by its arguments along the given axis, and "
                       "raises ValueError for every unsupported pair")
    for a in SYSTEMS:
        for b in SYSTEMS:
            if (a, b) in FN:
                spec, n = FN[a, b]
                for axes, ax in ((("t", n), -1), ((n, "t"), 0)):
                    def want(E, arrs, spec=spec, ax=ax):
                        v = arrs["arr"]
                        return build(v.axes, ax, spec(E, comps(v, ax)))
                    case(ctx, rep, ".transform_coordinates", {"arr": axes},
                         {"outof": a, "into": b, "axis": ax}, want,
                         name="transform_coordinates", rule=DISPATCH)
            else:
                bad_pair(ctx, rep, a, b)
    for a, b in (("cartesian", "nonsense"), ("nonsense", "cartesian"),
                 (None, "cartesian")):
        bad_pair(ctx, rep, a, b)


def bad_pair(ctx, rep, a, b):
    con = f"transform_coordinates({a} to {b})"

    def go():
        I = ctx.interp()
        arr = sym("arr", kind="ndarray", nonnull=True)
        r = ctx.run(I, ctx.public(I, "transform_coordinates"), [arr],
                    {"outof": const(a), "into": const(b)})
        if r is not None:
            rep.bad(DISPATCH, con, f"returns {show(r, 4)}", r.loc)
            return
        exc = {e.how for e in I.raises}
        rep.check("ValueError" in exc and exc <= {"ValueError",
                                                  "NotImplementedError"},
                  DISPATCH, con, f"raises {sorted(exc)}",
                  I.raises[-1].loc if I.raises else None)
    ctx.guarded(DISPATCH, con, go)
