"""
Building primitives for the code under test and evaluating constraints in bulk

Only public, documented API is used: the primitive constructors, `Node.from_tree`,
`.items()`, `.value` and calling a construction with primitives and parameters.
"""

import functools

import jax
import jax.numpy as jnp
import numpy as np

from mpllayout import primitives as pr

# kind -> number of vertices
NPTS = {"P": 1, "L": 2, "Q": 4, "G3": 3, "G5": 5}


def point(xy):
    return pr.Point([float(xy[0]), float(xy[1])])


def line(pts):
    return pr.Line(prims=(point(pts[0]), point(pts[1])))


def quad(pts):
    """Vertices in order bottom-left, bottom-right, top-right, top-left"""
    return pr.Quadrilateral(None, [point(p) for p in pts])


def box_pts(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def box(x0, y0, x1, y1):
    return quad(box_pts(x0, y0, x1, y1))


def polygon(pts):
    return pr.Polygon(None, [point(p) for p in pts], size=len(pts))


def make(kind, pts):
    pts = np.asarray(pts, dtype=float).reshape(-1, 2)
    if kind == "P":
        return point(pts[0])
    if kind == "L":
        return line(pts)
    if kind == "Q":
        return quad(pts)
    if kind.startswith("G"):
        return polygon(pts)
    raise KeyError(kind)


def axes_flags(kind):
    """'A' followed by any of x, y, X (twin x), Y (twin y)"""
    return dict(
        xaxis="x" in kind, yaxis="y" in kind, twinx="X" in kind, twiny="Y" in kind
    )


def axes_parts(kind):
    """Documented child keys of an Axes, in the documented order, with their kind"""
    parts = [("Frame", "Q")]
    if "x" in kind:
        parts += [("XAxis", "Q"), ("XAxisLabel", "P")]
    if "y" in kind:
        parts += [("YAxis", "Q"), ("YAxisLabel", "P")]
    if "X" in kind:
        parts += [("TwinXAxis", "Q"), ("TwinXAxisLabel", "P")]
    if "Y" in kind:
        parts += [("TwinYAxis", "Q"), ("TwinYAxisLabel", "P")]
    return parts


def axes(kind, parts):
    """`parts`: dict of child key to vertices"""
    prims = tuple(make(k, parts[key]) for key, k in axes_parts(kind))
    return pr.Axes(None, prims, **axes_flags(kind))


def npts(kind):
    if kind.startswith("A"):
        return sum(NPTS[k] for _, k in axes_parts(kind))
    return NPTS[kind]


def make_any(kind, pts):
    pts = np.asarray(pts, dtype=float).reshape(-1, 2)
    if not kind.startswith("A"):
        return make(kind, pts)
    parts, i = {}, 0
    for key, k in axes_parts(kind):
        parts[key] = pts[i : i + NPTS[k]]
        i += NPTS[k]
    return axes(kind, parts)


NUMBER_TYPES = {
    "int64": lambda v: np.asarray(v).astype(np.int64),
    "int32": lambda v: np.asarray(v).astype(np.int32),
    "float32": lambda v: np.asarray(v, dtype=np.float32),
    "jax": lambda v: jnp.asarray(v, dtype=float),
    "jax float32": lambda v: jnp.asarray(v, dtype=jnp.float32),
    "jax int": lambda v: jnp.asarray(np.asarray(v).astype(int)),
}


def retyped(prim, conv):
    """The same tree (shared values stay shared) with other types of numbers"""
    values, nodes = {}, {}

    def go(p):
        if id(p) not in nodes:
            if np.size(p.value) and id(p.value) not in values:
                values[id(p.value)] = conv(p.value)
            nodes[id(p)] = type(p).from_tree(values.get(id(p.value), p.value), {k: go(c) for k, c in p.items()})
        return nodes[id(p)]

    return go(prim)


## Reading geometry back


def read_point(p):
    v = np.asarray(p.value, dtype=float)
    assert v.shape == (2,), v.shape
    return v


def read_line(l):
    return np.array([read_point(l["Point0"]), read_point(l["Point1"])])


def read_polygon(q):
    """Vertices of a polygon; every line must start where the previous one ended"""
    lines = [read_line(q[f"Line{n}"]) for n in range(len(q))]
    return np.array([l[0] for l in lines]), np.array([l[1] for l in lines])


## Bulk evaluation


def _marked(kind, start):
    n = npts(kind)
    return make_any(kind, [(1000.0 + start + i, -1.0) for i in range(n)]), n


def _index_tree(node):
    """Nested (type, vertex index or None, value, children) description of a template"""
    val = np.asarray(node.value)
    idx = int(val[0]) - 1000 if val.size == 2 else None
    return (
        type(node),
        idx,
        node.value,
        [(k, _index_tree(c)) for k, c in node.items()],
    )


def _rebuild(desc, pts, shared=None):
    """`shared`: a dict to use a single object for every vertex (and for every primitive with the same vertices)"""
    cls, idx, val, children = desc
    children = {k: _rebuild(c, pts, shared) for k, c in children}
    if shared is None:
        return cls.from_tree(val if idx is None else pts[idx], children)
    key = (cls, shared["classes"][idx] if idx is not None else tuple((k, id(c)) for k, c in children.items()))
    if key not in shared:
        shared[key] = cls.from_tree(val if idx is None else pts[shared["classes"][idx]], children)
    return shared[key]


class Bulk:
    """
    Evaluate `cons(prims, *params)` of the code under test over many coordinates

    The real call path is traced by `jax.vmap` (as the solver traces it with `jax.jit`).

    `classes` gives for every vertex the first one that is the same `Point` object; lines and
    polygons with the same vertices are the same object then.
    """

    def __init__(self, cons, kinds, params, classes=None):
        descs, start = [], 0
        for kind in kinds:
            prim, n = _marked(kind, start)
            descs.append(_index_tree(prim))
            start += n
        self.n = start

        def f(pts):
            shared = None if classes is None else {"classes": classes}
            prims = tuple(_rebuild(d, pts, shared) for d in descs)
            return jnp.ravel(cons(prims, *params))

        self._f = jax.jit(jax.vmap(f))

    def __call__(self, pts, chunk=200_000):
        pts = np.asarray(pts, dtype=float).reshape(len(pts), self.n, 2)
        out = [
            np.asarray(self._f(pts[i : i + chunk])) for i in range(0, len(pts), chunk)
        ]
        return np.concatenate(out) if out else np.zeros((0, 0))


def sharings(pts):
    """
    Placements (N, n, 2) grouped by which of their vertices coincide: (classes, placements)

    Only those where some do; vertices that coincide can be the same `Point` object.
    """
    first = np.argmax(np.all(pts[:, :, None] == pts[:, None, :], axis=-1), axis=2)
    for classes in np.unique(first, axis=0):
        if (classes != np.arange(pts.shape[1])).any():
            yield tuple(int(i) for i in classes), pts[np.all(first == classes, axis=1)]


def prims_for(kinds, pts):
    pts = np.asarray(pts, dtype=float).reshape(-1, 2)
    prims, i = [], 0
    for kind in kinds:
        n = npts(kind)
        prims.append(make_any(kind, pts[i : i + n]))
        i += n
    return tuple(prims)


def eager(cons, kinds, params, pts):
    return np.asarray(cons(prims_for(kinds, pts), *params), dtype=float).ravel()


@functools.lru_cache(maxsize=None)
def lattice(coords, n):
    """All n-tuples of points with coordinates from `coords`: (len**2n, n, 2)"""
    c = np.array(coords, dtype=float)
    grids = np.meshgrid(*([c] * (2 * n)), indexing="ij")
    return np.stack([g.ravel() for g in grids], axis=-1).reshape(-1, n, 2)


def split_kinds(pts, kinds):
    """List of (N, n_k, 2) arrays for every primitive"""
    out, i = [], 0
    for kind in kinds:
        n = npts(kind)
        out.append(pts[:, i : i + n])
        i += n
    return out
