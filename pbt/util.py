"""Helpers for checks."""
import numpy as np
from pbt.core import fail


def finite(x, what):
    x = np.asarray(x)
    if not np.all(np.isfinite(x)):
        fail(f"{what}: not finite: {x.tolist() if x.size < 40 else 'array'}")
    return x


def close(ctx, got, want, tol, what, ratio=None):
    """|got - want| <= tol everywhere; NaN or inf in got fails."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        fail(f"{what}: shape {got.shape}, expected {want.shape}")
    finite(got, what)
    if got.size == 0:
        return
    err = np.abs(got.astype(np.clongdouble) - want.astype(np.clongdouble)).astype(np.float64)
    tol_a = np.broadcast_to(np.asarray(tol, dtype=float), err.shape)
    with np.errstate(divide="ignore", invalid="ignore"):
        r = np.where(err == 0, 0.0, err / tol_a)
    if ctx is not None:
        ctx.maximum("err/tol " + (ratio or what.split(":")[0]), np.max(r))
    if not np.all(err <= tol_a):
        i = np.unravel_index(int(np.argmax(r)), err.shape)
        fail(f"{what}: error {err[i]:.3e} exceeds tolerance {tol_a[i]:.3e} at {tuple(int(k) for k in i)}; "
             f"got {got[i]}, expected {want[i] if not np.iscomplexobj(want) else complex(want[i])}")


def exact(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        fail(f"{what}: shape {got.shape}, expected {want.shape}")
    if not np.array_equal(got, want):
        fail(f"{what}: differs; got {got.tolist() if got.size < 30 else '...'}, "
             f"expected {want.tolist() if want.size < 30 else '...'}")
