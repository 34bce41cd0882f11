"""C30: Euler angles compose the axis rotations in the given order."""
import itertools

from ..ctx import TRUE
from ..dom.arrays import Arr
from . import formula as F_

F = "utils.from_euler_angles"
AX = {"r": 1, "p": 2, "y": 3}
NAME = {"r": "roll", "p": "pitch", "y": "yaw"}


def euler(E, angles, order):
    """Product of the axis rotations, in the order of the letters."""
    al = E.alg
    q = (al.num(1), al.num(0), al.num(0), al.num(0))
    for c in order:
        if c not in angles:
            continue
        h = angles[c] / 2
        r = [al.cos(h), al.num(0), al.num(0), al.num(0)]
        r[AX[c]] = al.sin(h)
        q = E.qmul(q, tuple(r))
    return q


def check(ctx, rep):
    orders = ["".join(p) for p in itertools.permutations("rpy")]
    for order in orders:
        for quat in (False, True):
            rpy(ctx, rep, ("t", 3), -1, order, quat)
        for axes in ((), ("t",), ("t", "n")):
            single(ctx, rep, "rpy", axes, order)
    for axes, ax in (((3,), -1), ((3, "t"), 0), (("t", "n", 3), -1),
                     ((3, "t", "n"), 0), (("t", 3, "n"), 1),
                     (("t", 3, "n"), -2)):
        rpy(ctx, rep, axes, ax, "rpy", False)
    for k in (1, 2):
        for sub in itertools.combinations("rpy", k):
            for order in (orders if ctx.deep or k == 2 else orders[:1]):
                single(ctx, rep, sub, ("t",), order)
    for quat in (False, True):
        single(ctx, rep, "rpy", ("t",), None, quat)
    for axes, ax in (((3, 3), -1), ((3, 3), 0), ((1, 3), -1), ((1, 3), 1),
                     ((3, 1), 0), ((4, 3), -1), ((3, 3, 3), 1)):
        for order in ("rpy", "pyr"):
            def want(E, arrs, ax=ax, order=order):
                return F_.mapped([(arrs["rpy"], ax)], lambda v: euler(
                    E, dict(zip("rpy", v)), order), 4, ax)
            F_.case(ctx, rep, F, {"rpy": axes}, {"axis": ax, "order": order},
                    want, "from_euler_angles")
    for axes in ((1,), (3,), (4,), (2, 3), (1, "t")):
        for sub in ("rpy", "p", "ry"):
            def want(E, arrs, sub=sub):
                return F_.mapped(
                    [(arrs[NAME[c]], None) for c in sub],
                    lambda *v: euler(E, dict(zip(sub, v)), "rpy"), 4, -1)
            F_.case(ctx, rep, F, {NAME[c]: axes for c in sub}, {}, want,
                    "from_euler_angles")
    rej = ("ValueError",)
    F_.rejects(ctx, rep, F, {}, {}, rej, "from_euler_angles")
    for o in ("rp", "xyz", "rrp", "", "xrpy"):
        F_.rejects(ctx, rep, F, {"rpy": ("t", 3)}, {"order": o}, rej,
                   "from_euler_angles")
    for n in ("roll", "pitch", "yaw"):
        F_.rejects(ctx, rep, F, {"rpy": ("t", 3), n: ("t",)}, {}, rej,
                   "from_euler_angles")
    for o, m in (("ry", "pitch"), ("py", "roll"), ("pr", "yaw"),
                 ("", "roll"), ("RPY", "yaw")):
        F_.rejects(ctx, rep, F, {m: ("t",)}, {"order": o}, rej,
                   "from_euler_angles")
    for a, b in itertools.combinations(("roll", "pitch", "yaw"), 2):
        F_.rejects(ctx, rep, F, {a: ("t",), b: ("n",)}, {}, rej,
                   "from_euler_angles")
        F_.rejects(ctx, rep, F, {a: (), b: ("n",)}, {}, rej,
                   "from_euler_angles")


def opts(order, quat):
    kw = {}
    if order is not None:
        kw["order"] = order
    if quat:
        kw["return_quaternion"] = TRUE
    return kw


def rpy(ctx, rep, axes, ax, order, quat):
    kw = opts(order, quat)
    if ax != -1:
        kw["axis"] = ax

    def want(E, arrs):
        q = euler(E, dict(zip("rpy", F_.comps(arrs["rpy"], ax))), order)
        return result(axes, ax, q, quat)
    F_.case(ctx, rep, F, {"rpy": axes}, kw, want, "from_euler_angles")


def single(ctx, rep, sub, axes, order, quat=False):
    def want(E, arrs):
        q = euler(E, {c: arrs[NAME[c]].cells[()] for c in sub},
                  order or "rpy")
        return result(axes + (4,), -1, q, quat)
    F_.case(ctx, rep, F, {NAME[c]: axes for c in sub}, opts(order, quat),
            want, "from_euler_angles")


def result(axes, ax, q, quat):
    i = ax % len(axes)
    if quat:
        return Arr(axes[:i] + axes[i + 1:], {(): q}, True)
    return F_.build(axes[:i] + (4,) + axes[i + 1:], i, q)
