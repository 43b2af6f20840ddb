"""
Expressions over constructions and their denotations

An expression is a nested JSON list.  `build(expr)` returns the real construction made with
the operators of the code under test; `denote(expr)` returns an independent description:

    Den(kinds, ptypes, tree, fn)   fn(prims, params) -> 1-D numpy array

where `prims` are vertex arrays and `params` plain values.
"""

from collections import namedtuple

import numpy as np

from mpllayout import constraints as cr
from mpllayout import constructions as cn
from mpllayout import primitives as pr

from . import build, custom

Den = namedtuple("Den", "kinds ptypes tree size fn scalarlike")

PRIM = {"P": pr.Point, "L": pr.Line, "Q": pr.Quadrilateral}

DIRN = np.array([0.6, -0.8])


def _len(l):
    return np.hypot(*(l[1] - l[0]))


def _along(p, l, rev):
    u = (l[1] - l[0]) / _len(l)
    return np.dot(p[0] - l[1], -u) if rev else np.dot(p[0] - l[0], u)


def one(x):
    return np.array([x], dtype=float)


def _called(make, kinds):
    """The value of a part without documented order or signs is that of calling it"""

    def fn(prims, params):
        real = tuple(build.make_any(k, p) for k, p in zip(kinds, prims))
        return np.ravel(np.asarray(make()(real, *params), dtype=float))

    return fn


def _atom(make, kinds, ptypes, tree, size):
    return make, Den(kinds, ptypes, tree, size, _called(make, kinds), False)


ATOMS = {
    "Coordinate": (cn.Coordinate, Den(("P",), (), "leaf", 2, lambda p, a: p[0][0], False)),
    "Midpoint": (cn.Midpoint, Den(("L",), (), "leaf", 2, lambda p, a: (p[0][0] + p[0][1]) / 2, False)),
    "Length": (cn.Length, Den(("L",), (), "leaf", 1, lambda p, a: one(_len(p[0])), False)),
    "DirectedDistance": (
        cn.DirectedDistance,
        Den(("P", "P"), ("dir",), "leaf", 1,
            lambda p, a: one(np.dot(p[1][0] - p[0][0], a[0])), False)),
    "PointOnLine": (
        cn.PointOnLineDistance,
        Den(("P", "L"), ("rev",), "leaf", 1, lambda p, a: one(_along(p[0], p[1], a[0])), False)),
    "Width": (cn.Width, Den(("Q",), (), "W", 1, lambda p, a: one(p[0][1, 0] - p[0][0, 0]), False)),
    "OuterMargin": (
        lambda: cn.OuterMargin(side="right"),
        Den(("Q", "Q"), (), "R", 1, lambda p, a: one(p[1][0, 0] - p[0][1, 0]), False)),
    "InnerMargin": (
        lambda: cn.InnerMargin(side="right"),
        Den(("Q", "Q"), (), "R", 1, lambda p, a: one(p[1][1, 0] - p[0][1, 0]), False)),
    "CoincidentLines": _atom(cr.CoincidentLines, ("L", "L"), ("rev",), "leaf", 4),
    "Box": _atom(cr.Box, ("Q",), (), "box", 4),
    "MarginArray": _atom(
        lambda: cr.OuterMarginArray(shape=(3,), side="top"), ("Q",) * 3, ("num", "num"), "array", 2),
    "Rectilinear": _atom(lambda: cr.RectilinearGrid((2, 2)), ("Q",) * 4, (), "grid", 16),
    "Scalar": (cn.Scalar, Den((), ("num",), "leaf", 1, lambda p, a: one(a[0]), True)),
    # User-defined
    "Spread": (custom.Spread, Den(("P", "P"), ("array3", "num"), "leaf", 3, custom.v_spread, False)),
    "Report": (custom.Report, Den(("Q", "P"), ("num", "dir"), "Report", 3, custom.v_report, False)),
}

# Scalar factors accepted by *, / and **
FACTORS = {
    "c2": (lambda: 2.0, (), lambda a: 2.0),
    "c-3": (lambda: -3, (), lambda a: -3.0),
    "S": (cn.Scalar, ("num",), lambda a: a[0]),
    "S*2": (lambda: cn.Scalar() * 2.0, ("num",), lambda a: 2.0 * a[0]),
    "S**2": (lambda: cn.Scalar() ** 2, ("num",), lambda a: a[0] ** 2),
    "p(S,3)": (lambda: cn.transform_partial(cn.Scalar(), 3.0), (), lambda a: 3.0),
    "cn": (lambda: np.float64(-0.75), (), lambda a: -0.75),
}
EXPONENTS = {
    "c2": (lambda: 2.0, (), lambda a: 2.0),
    "c-1": (lambda: -1, (), lambda a: -1.0),
    "S": (cn.Scalar, ("exp",), lambda a: a[0]),
    "cn": (lambda: np.float64(3.0), (), lambda a: 3.0),
}

UNARY = (
    ["neg", "pos", "constraint", "map1", "map2", "partial0", "partial1", "partial_all"]
    + [f"mul:{k}" for k in FACTORS]
    + [f"rmul:{k}" for k in FACTORS]
    + [f"div:{k}" for k in FACTORS]
    + [f"pow:{k}" for k in EXPONENTS]
)

FROZEN = {"dir": DIRN, "rev": True, "num": 1.5, "exp": 2.0, "value": 0.75, "none": None}


def valid(op, d):
    """Whether `op` can be applied to an operand with denotation `d`"""
    if op.startswith("partial1"):
        return len(d.ptypes) >= 2
    if op == "partial_all":
        return len(d.ptypes) >= 1
    if op.startswith("map"):
        return len(d.kinds) >= 1
    if op.startswith(("mul:", "rmul:")) and d.scalarlike:
        # The parameter order of a product of two `Scalar`s is not documented
        return op.split(":")[1].startswith("c")
    return True


def denote(e):
    if isinstance(e, str):
        return ATOMS[e][1]
    op = e[0]
    a = denote(e[1])
    na, pa = len(a.kinds), len(a.ptypes)
    if op == "add":
        b = denote(e[2])
        return Den(
            a.kinds + b.kinds, a.ptypes + b.ptypes, a.tree, a.size,
            lambda p, q: a.fn(p[:na], q[:pa]) + b.fn(p[na:], q[pa:]), False,
        )
    if op == "neg":
        return a._replace(fn=lambda p, q: -a.fn(p, q))
    if op == "pos":
        return a
    if op == "constraint":
        return a._replace(
            ptypes=a.ptypes + (f"value{a.size}",),
            fn=lambda p, q: a.fn(p, q[:-1]) - np.asarray(q[-1]), scalarlike=False,
        )
    if op.startswith("map"):
        n = int(op[3:])
        m = na - 1

        def fn(p, q):
            return np.concatenate(
                [a.fn([p[i], *p[n:]], q[i * pa : (i + 1) * pa]) for i in range(n)]
            )

        return Den(
            a.kinds[:1] * n + a.kinds[1:], a.ptypes * n, f"map{n}({a.tree},{a.name if 0 else e[1]})",
            a.size * n, fn, False,
        )
    if op in ("partial0", "partial1", "partial_all"):
        k = {"partial0": 0, "partial1": 1, "partial_all": pa}[op]
        frozen = [freeze_value(t, a) for t in a.ptypes[pa - k :]]
        return a._replace(
            ptypes=a.ptypes[: pa - k], fn=lambda p, q: a.fn(p, list(q) + frozen)
        )
    kind, name = op.split(":")
    if kind in ("mul", "rmul", "div"):
        _, extra, f = FACTORS[name]
        if kind == "div":
            g = lambda x, s: x / s
        else:
            g = lambda x, s: x * s
    else:
        _, extra, f = EXPONENTS[name]
        g = lambda x, s: x**s
    return a._replace(
        ptypes=a.ptypes + extra, fn=lambda p, q: g(a.fn(p, q[:pa]), f(q[pa:]))
    )


def freeze_value(t, d=None):
    if t[:5] in ("value", "array"):
        n = int(t[5:])
        return np.array([0.25 + 0.5 * i for i in range(n)])
    if t.startswith("list"):
        return [0.75 + 0.5 * i for i in range(int(t[4:]))]
    return FROZEN[t]


def make(e, memo=None):
    """The real construction; equal sub-expressions share one object (aliasing)"""
    memo = {} if memo is None else memo
    key = repr(e)
    if key in memo:
        return memo[key]
    if isinstance(e, str):
        out = ATOMS[e][0]()
    else:
        op, a = e[0], make(e[1], memo)
        if op == "add":
            out = a + make(e[2], memo)
        elif op == "neg":
            out = -a
        elif op == "pos":
            out = +a
        elif op == "constraint":
            out = cn.transform_constraint(a)
        elif op.startswith("map"):
            n = int(op[3:])
            kinds = denote(e).kinds
            out = cn.transform_map(a, [PRIM.get(k, pr.Axes) for k in kinds])
        elif op.startswith("partial"):
            d = denote(e[1])
            pa = len(d.ptypes)
            k = {"partial0": 0, "partial1": 1, "partial_all": pa}[op]
            out = cn.transform_partial(a, *[freeze_value(t) for t in d.ptypes[pa - k :]])
        else:
            kind, name = op.split(":")
            f = (EXPONENTS if kind == "pow" else FACTORS)[name][0]()
            if kind == "mul":
                out = a * f
            elif kind == "rmul":
                out = f * a
            elif kind == "div":
                out = a / f
            else:
                out = a**f
    memo[key] = out
    return out


## Concrete arguments


def prims_for(kinds, k):
    """Vertex arrays: pairwise different, generic, positive lengths"""
    out = []
    for n, kind in enumerate(kinds):
        s = 0.37 * n + 0.11 * k
        if kind == "P":
            out.append(np.array([[1.3 + s, -0.7 + 2 * s]]))
        elif kind == "L":
            out.append(np.array([[0.2 - s, 0.5 * s], [1.4 + 2 * s, 0.9 + s + 0.3 * k]]))
        elif kind.startswith("A"):
            from . import catalogue

            out.append(catalogue.generic_vertices((kind,), n + k)[0])
        else:
            x, y, w, h = 0.4 * n - k, 0.3 * n, 1.2 + s, 0.8 + 2 * s
            out.append(np.array([[x, y], [x + w, y], [x + w, y + h], [x, y + h]]))
    return out


def params_for(ptypes, k):
    out = []
    for n, t in enumerate(ptypes):
        if t == "dir":
            out.append([np.array([0.8, 0.6]), np.array([0.0, -1.0])][(n + k) % 2])
        elif t == "rev":
            out.append(bool((n + k) % 2))
        elif t == "num":
            out.append([1.25, -0.5, 3.0][(n + k) % 3])
        elif t == "exp":
            out.append([2.0, 3.0][(n + k) % 2])
        elif t == "none":
            out.append(None)
        elif t.startswith("array"):
            out.append(np.array([1.3 - 0.4 * i + 0.1 * n + k for i in range(int(t[5:]))]))
        elif t.startswith("list"):
            out.append([1.3 + 0.4 * i + 0.1 * n + k for i in range(int(t[4:]))])
        else:
            size = int(t[5:])
            if k % 2 == 0:
                out.append(np.array([0.3 + 0.7 * i + 0.1 * n for i in range(size)]))
            else:
                out.append(0.45 + n)
    return out


## Every documented constraint in one generic use as an atom


def _ptype(name, p):
    if isinstance(p, (bool, np.bool_)):
        return "rev"
    if p is None:
        return "none"
    if isinstance(p, list):
        return f"list{len(p)}"
    if np.ndim(p):
        return "dir" if "Directed" in name else f"array{np.size(p)}"
    return "num"


def _catalogue():
    from . import catalogue

    out = {}
    for name, (make, kinds, ptypes, tree, size, fn, _) in custom.VALUES.items():
        if name not in ATOMS:
            out[name] = make, Den(tuple(kinds), ptypes, tree, size, fn, False)
    for u in catalogue.uses():
        if u.name.startswith("user-defined"):
            continue
        name = f"use {u.name}"
        if name not in out and len(u.kinds) <= 6:
            size = np.size(u.make()(u.prims(), *u.params))
            ptypes = tuple(_ptype(u.name, p) for p in u.params)
            out[name] = _atom(u.make, u.kinds, ptypes, name, size)
    return out


_BASIC = tuple(ATOMS)
ATOMS.update(_catalogue())
