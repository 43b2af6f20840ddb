"""Comparing the zero set of a constraint (code under test) with its documented meaning"""

import numpy as np

from . import build, oracle

TOL_DEV, TOL_RES = 1e-8, 1e-7
# Powers of two scale every coordinate and length exactly
SCALES = (2.0**-16, 2.0**-7, 2.0**10)


def describe(entry, params, pts):
    parts, i = [], 0
    for k in entry.kinds:
        n = build.npts(k)
        parts.append({k: np.round(pts[i : i + n], 6).tolist()})
        i += n
    return {"constraint": entry.name, "params": params, "prims": parts}


def compare_zero(ctx, entry, params, pts, res, where, scale=1.0):
    """
    `pts` (N, n, 2), `res` (N, k) from the code under test

    With a `scale` the residuals are those for `scale * pts` and accordingly scaled parameters:
    whether they are satisfied doesn't depend on it.
    """
    parts = build.split_kinds(pts, entry.kinds)
    ok = entry.ok(parts)
    dev = np.max(np.abs(entry.fn(parts, params)), axis=-1)
    rmax = np.max(np.abs(res), axis=-1) if res.shape[-1] else np.zeros(len(pts))
    want = dev < TOL_DEV
    # Coordinates are chosen so that nothing is nearly (but not quite) satisfied
    ok = ok & (want | (dev > (1e-4 if scale >= 1 else 1e-2)))
    bad = ok & ~np.isfinite(res).all(axis=-1)
    # A residual may be the square of a length
    got = rmax < (TOL_RES if scale >= 1 else max(TOL_RES * scale**2, 1e-14))
    bad |= ok & (want != got)
    if bad.any():
        i = int(np.argmax(bad))
        ctx.fail(
            f"{entry.name}{params}: the constraint is "
            f"{'satisfied' if want[i] else 'not satisfied'} but the residual is "
            f"{np.round(res[i], 9).tolist() if scale >= 1 else res[i].tolist()} ({where})",
            point=describe(entry, params, pts[i]),
            scale=scale,
            residual=res[i],
            deviation=dev[i],
            failing=int(bad.sum()),
            of=int(ok.sum()),
        )
    n_sat, n_uns = int((ok & want).sum()), int((ok & ~want).sum())
    ctx.count("satisfied", n_sat)
    ctx.count("unsatisfied", n_uns)
    return n_sat, n_uns


def check_scales(ctx, entry, params, pts, bulk_for):
    """The same relation at very different sizes: `bulk_for(params)` evaluates the real code"""
    for s in SCALES:
        res = bulk_for(entry.scaled(params, s))(s * np.asarray(pts, dtype=float))
        a, b = compare_zero(ctx, entry, params, pts, res, f"all lengths times {s:g}", s)
        ctx.ev(len(pts))
        ctx.bulk(a + b)


def check_shared(ctx, entry, params, pts, cons, compare=compare_zero):
    """Placements with coincident vertices, as the same `Point` objects"""
    for classes, sub in build.sharings(np.asarray(pts, dtype=float)):
        n = compare(ctx, entry, params, sub, build.Bulk(cons, entry.kinds, params, classes)(sub), f"vertices {classes} are the same points")
        ctx.ev(len(sub))
        ctx.bulk(int(np.sum(n)))
        ctx.count("shared_points", len(sub))


def compare_value(ctx, entry, params, pts, val, where, scale=1.0, tol=1e-9):
    parts = build.split_kinds(pts, entry.kinds)
    ok = entry.ok(parts)
    want = entry.fn(parts, params)
    ctx.check(
        val.shape == want.shape,
        f"{entry.name}{params}: value has shape {val.shape[1:]}, not {want.shape[1:]}",
    )
    unit = scale**entry.order
    want = unit * want
    with np.errstate(all="ignore"):
        bad = ok & ~(np.abs(val - want) <= tol * (unit + np.abs(want))).all(axis=-1)
    if bad.any():
        i = int(np.argmax(bad))
        ctx.fail(
            f"{entry.name}{params}: value {val[i].tolist()} should be {want[i].tolist()} "
            f"({where})",
            point=describe(entry, params, pts[i]),
            scale=scale,
            failing=int(bad.sum()),
            of=int(ok.sum()),
        )
    return int(ok.sum())
