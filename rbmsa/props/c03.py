"""C03: velocity transforms include the frame's own motion."""
from . import lemmas, typed

M = ("transform_angular_velocity", "transform_linear_velocity")
W = ("reference_frame", "moving_frame", "representation_frame")


def check(ctx, rep):
    for m in M:
        for w in W:
            for ts in (False, True):
                typed.method(ctx, rep, m, w, ts=ts)
            typed.top(ctx, rep, m, w)
            typed.top(ctx, rep, m, w, ts=True)
            typed.top(ctx, rep, m, w, dataarray=True)
    lemmas.rotate_vectors(ctx, rep)
    lemmas.resolve_frame(ctx, rep)
