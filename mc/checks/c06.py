"""C06: grid constraints hold exactly for the grid with the given parameters"""

import itertools

import numpy as np

from mpllayout import constraints as cr

from .. import build, oracle, zero

LEVEL = "exploration"
RULE = (
    "Every grid shape up to the bound x parameter sets with pairwise distinct widths, heights "
    "and margins x the exact arrangement, every arrangement with one coordinate (left, bottom, "
    "right, top) of one rectangle displaced, every arrangement with a trailing part of the rows "
    "or columns displaced, every exchange of two rectangles, and every single changed, and every "
    "reordered, parameter, and parameters of mixed types of numbers. The real constraint is compared with an independent definition of the "
    "grid (rows from top to bottom, columns from left to right). Non-trivial: every "
    "evaluation is of a documented well-formed input. Distinct: (shape, parameters, coordinates)."
)
ASSUMPTIONS = [
    "only rectangles are arranged (a general quadrilateral in a grid is covered through Box and Align in C05)",
    "bulk evaluation traces the real call path with jax.vmap/jit; unperturbed arrangements and single displacements are also evaluated eagerly for small shapes",
]

SHAPES = {
    "quick": [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1),
              (3, 3), (2, 4), (3, 4), (1, 12), (11, 1)],
    "thorough": [(r, c) for r in range(1, 6) for c in range(1, 6) if r * c <= 16]
    + [(1, 6), (6, 1), (2, 6), (6, 2), (1, 12), (11, 1), (4, 5)],
}


def bounds(tier):
    return {"shapes": SHAPES[tier], "param_sets": 2 if tier == "quick" else 3}


def params_for(shape, k):
    nr, nc = shape
    cw = [[2.0, 0.5, 3.0, 1.5, 0.75], [1.0, 1.0, 2.0, 1.0, 0.5], [0.5, 2.5, 1.25, 4.0, 1.0]][k]
    rh = [[1.5, 3.0, 0.5, 2.0, 1.25], [1.0, 0.5, 1.0, 2.0, 1.0], [2.5, 0.75, 1.0, 0.5, 3.0]][k]
    cm = [[0.25, 0.5, 1.0, 0.125, 2.0], [0.0, 0.5, -0.25, 0.5, 0.0], [1.0, 2.0, 0.5, 0.25, 0.75]][k]
    rm = [[0.75, 1.5, 0.375, 3.0, 0.1], [0.5, 0.0, 1.0, -0.5, 0.5], [0.3, 0.6, 0.9, 1.2, 1.5]][k]
    # More than ten rows or columns, all distinct
    cw, rh, cm, rm = ([*p, *(0.2 + 0.15 * i + 0.01 * p[0] for i in range(8))] for p in (cw, rh, cm, rm))
    return cw[: nc - 1], rh[: nr - 1], cm[: nc - 1], rm[: nr - 1]


ORIGINS = [(0.0, 0.0, 1.0, 1.0), (-3.0, 2.5, 2.0, 0.5), (0.5, -1.0, 1.5, 2.0)]


def arrange(shape, params, k):
    """Row-major list of rectangles (left, bottom, right, top)"""
    cw, rh, cm, rm = params
    nr, nc = shape
    x0, ytop, w0, h0 = ORIGINS[k]
    xs, x = [], x0
    for j in range(nc):
        w = w0 * (1.0 if j == 0 else cw[j - 1])
        xs.append((x, x + w))
        x += w + (cm[j] if j < nc - 1 else 0)
    ys, y = [], ytop
    for i in range(nr):
        h = h0 * (1.0 if i == 0 else rh[i - 1])
        ys.append((y - h, y))
        y -= h + (rm[i] if i < nr - 1 else 0)
    return [(xs[j][0], ys[i][0], xs[j][1], ys[i][1]) for i in range(nr) for j in range(nc)]


def perturbations(shape, base):
    nr, nc = shape
    yield list(base)
    # Any uniform shift or scale-preserving move keeps the grid
    yield [(b[0] + 1.5, b[1] - 2.0, b[2] + 1.5, b[3] - 2.0) for b in base]
    for n in range(nr * nc):
        for d, delta in itertools.product(range(4), (0.5, -0.25)):
            b = list(base[n])
            b[d] += delta
            yield base[:n] + [tuple(b)] + base[n + 1 :]
        # move the whole rectangle
        for d, delta in itertools.product((0, 1), (0.5, -0.25)):
            b = list(base[n])
            b[d] += delta
            b[d + 2] += delta
            yield base[:n] + [tuple(b)] + base[n + 1 :]
    for j in range(nc):
        # trailing columns moved: only one margin changes
        yield [
            (b[0] + 0.5, b[1], b[2] + 0.5, b[3]) if n % nc >= j else b
            for n, b in enumerate(base)
        ]
        # one column widened to the right, the rest following: only one width changes
        yield [
            (b[0] + (0.5 if n % nc > j else 0), b[1], b[2] + (0.5 if n % nc >= j else 0), b[3])
            for n, b in enumerate(base)
        ]
    for i in range(nr):
        yield [
            (b[0], b[1] - 0.5, b[2], b[3] - 0.5) if n // nc >= i else b
            for n, b in enumerate(base)
        ]
        yield [
            (b[0], b[1] - (0.5 if n // nc >= i else 0), b[2], b[3] - (0.5 if n // nc > i else 0))
            for n, b in enumerate(base)
        ]
    for m, n in itertools.combinations(range(nr * nc), 2):
        s = list(base)
        s[m], s[n] = s[n], s[m]
        yield s


def changed_params(params):
    """Every parameter changed on its own, and every list reversed or rotated"""
    yield params
    for a in range(4):
        for b in range(len(params[a])):
            for delta in (0.5, -0.1):
                new = [list(p) for p in params]
                new[a][b] += delta
                yield tuple(new)
        if len(params[a]) > 1:
            new = [list(p) for p in params]
            new[a] = new[a][::-1]
            yield tuple(new)
            new = [list(p) for p in params]
            new[a] = new[a][1:] + new[a][:1]
            yield tuple(new)
    if len(params[0]) == len(params[1]):
        yield (params[1], params[0], params[2], params[3])
        yield (params[0], params[1], params[3], params[2])
    yield (params[2], params[1], params[0], params[3])
    yield (params[0], params[3], params[2], params[1])


def grid_dev(shape, with_params):
    nr, nc = shape

    def dev(parts, params):
        B = [oracle.box4(q) for q in parts]
        out = []
        for i, j in itertools.product(range(nr), range(nc)):
            b, r0, c0 = B[i * nc + j], B[i * nc], B[j]
            out += [b[1] - r0[1], b[3] - r0[3], b[0] - c0[0], b[2] - c0[2]]
        if with_params:
            cw, rh, cm, rm = params
            for j in range(1, nc):
                out.append((B[j][2] - B[j][0]) - cw[j - 1] * (B[0][2] - B[0][0]))
                out.append(B[j][0] - B[j - 1][2] - cm[j - 1])
            for i in range(1, nr):
                out.append((B[i * nc][3] - B[i * nc][1]) - rh[i - 1] * (B[0][3] - B[0][1]))
                out.append(B[(i - 1) * nc][1] - B[i * nc][3] - rm[i - 1])
        return oracle.col(*out)

    return dev


def sized(parts):
    # Lengths are unsigned: keep rectangles unflipped and non-degenerate
    m = oracle.always(parts)
    for q in parts:
        l, b, r, t = oracle.box4(q)
        m &= (r - l > 1e-9) & (t - b > 1e-9)
    return m


def cases(tier):
    nk = 2 if tier == "quick" else 3
    shapes = sorted(SHAPES[tier], key=lambda s: -s[0] * s[1])
    out = [{"grid": s, "k": k} for s in shapes for k in range(nk)]
    out += [{"rect": s, "k": 0} for s in shapes]
    return out


def to_pts(rows):
    return np.array([np.concatenate([build.box_pts(*b) for b in r]) for r in rows])


def run(case, ctx):
    shape = tuple(case.get("grid") or case["rect"])
    k = case["k"]
    kinds = ("Q",) * (shape[0] * shape[1])
    params = params_for(shape, k)
    base = arrange(shape, params, k)
    pts = to_pts(list(perturbations(shape, base)))

    if "rect" in case:
        e = oracle.Entry(f"RectilinearGrid{shape}", lambda: cr.RectilinearGrid(shape=shape),
                         kinds, [()], grid_dev(shape, False), sized)
        params = ()
    else:
        e = oracle.Entry(f"Grid{shape}", lambda: cr.Grid(shape), kinds, [params],
                         grid_dev(shape, True), sized)
    cons = e.make()
    res = build.Bulk(cons, kinds, params)(pts)
    a, b = zero.compare_zero(ctx, e, params, pts, res, "traced")
    ctx.bulk(min(a + b, len(np.unique(pts.reshape(len(pts), -1), axis=0))))
    ctx.ev(len(pts))
    if len(kinds) <= (6 if ctx.quick else 9):
        zero.check_scales(ctx, e, params, pts, lambda pp: build.Bulk(cons, kinds, pp))
    ctx.sample({"constraint": e.name, "params": params, "boxes(l,b,r,t)": base})

    small = len(kinds) <= 4 or not ctx.quick
    if small:
        sub = pts[: 2 + 12 * len(kinds)] if len(kinds) <= 4 else pts[:2]
        res = np.array([build.eager(cons, kinds, params, p) for p in sub])
        zero.compare_zero(ctx, e, params, sub, res, "eager")
        ctx.ev(len(sub))

    if "grid" in case:
        # Whole numbers as integers, alone and next to other numbers
        for a, b in [(a, b) for a in range(4) for b in range(-1, len(params[a]))]:
            new = [[2 if b < 0 or b == j else v for j, v in enumerate(p)] if a == i else list(p)
                   for i, p in enumerate(params)]
            exact = to_pts([arrange(shape, new, k)])
            for form in (list, tuple, np.array):
                pp = [form(p) if i == a else p for i, p in enumerate(new)]
                res = np.array([build.eager(cons, kinds, tuple(pp), exact[0])])
                zero.compare_zero(ctx, e, new, exact, res, f"eager, integers in {form.__name__} parameters")
                ctx.ev()
            ctx.seen((shape, k, "int", a, b))
        # The exact arrangement against changed parameters
        for new in changed_params(params):
            for form in (0, 1):
                pp = tuple(np.array(p) for p in new) if form else new
                res = np.array([build.eager(cons, kinds, pp, pts[0])])
                zero.compare_zero(ctx, e, new, pts[:1], res, "eager, changed parameters")
                ctx.ev()
            ctx.seen((shape, k, new))
