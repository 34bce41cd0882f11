"""C02: points, vectors and orientations are mapped by the transform."""
from . import lemmas, typed

M = ("transform_points", "transform_vectors", "transform_quaternions")


def check(ctx, rep):
    for m in M:
        for ts in (False, True):
            typed.method(ctx, rep, m, ts=ts)
        typed.top(ctx, rep, m)
        typed.top(ctx, rep, m, return_ts=True)
        typed.top(ctx, rep, m, ts=True)
        typed.top(ctx, rep, m, dataarray=True)
    lemmas.rotate_vectors(ctx, rep)
    lemmas.resolve_frame(ctx, rep)
