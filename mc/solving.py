"""Solving layouts with the code under test and inspecting the result"""

import contextlib

import jax
import numpy as np

from mpllayout import containers as cn
from mpllayout import layout as lay
from mpllayout import primitives as pr
from mpllayout import solver


def solve(layout, *args, jit=False, **kw):
    """`jit=False` runs the very same code without compiling it (several times faster)"""
    # Only worth it for few evaluations
    jit = jit or "minimize" in (*args, kw.get("method"))
    with contextlib.nullcontext() if jit else jax.disable_jit():
        return solver.solve(layout, *args, **kw)


def uncompiled(method):
    """Wrapper for a solver function of this method that runs it the way `solve` does"""

    def wrap(f):
        def run(*args, **kw):
            with contextlib.nullcontext() if method == "minimize" else jax.disable_jit():
                return f(*args, **kw)

        return run

    return wrap


def group(prims=None):
    return pr.PrimitiveNode(np.array([]), dict(prims or {}))


def flat(prim):
    """[(key, type, value as float array)] in tree order"""
    return [(k, type(n), np.array(n.value, dtype=float)) for k, n in cn.iter_flat("", prim)]


def frozen(prim):
    """Everything observable, including identities"""
    return [(k, type(n), id(n), id(n.value), np.array(n.value).tobytes()) for k, n in cn.iter_flat("", prim)]


def frozen_layout(l):
    return [frozen(l.root_prim)] + [
        [(k, id(n), id(n.value)) for k, n in cn.iter_flat("", t)]
        for t in (l.root_constraint, l.root_prim_keys, l.root_param)
    ]


def same_structure(a, b):
    fa, fb = flat(a), flat(b)
    return [(k, t, v.shape) for k, t, v in fa] == [(k, t, v.shape) for k, t, v in fb]


def sharing(prim):
    """Partition of the keys of two-coordinate values by identity of the value"""
    out = {}
    for k, n in cn.iter_flat("", prim):
        if np.size(n.value):
            out.setdefault(id(n.value), []).append(k)
    return sorted(out.values())


def coords(prim):
    return {k: v for k, _, v in flat(prim) if v.size}


def residual_norm(layout, prim=None):
    """2-norm of the residuals of the layout's constraints, evaluated by direct calls"""
    root = layout.root_prim if prim is None else prim
    tot = 0.0
    for key, cons in layout.root_constraint.items():
        prims = tuple(root[k] for k in layout.root_prim_keys[key].value)
        res = np.ravel(np.asarray(cons(prims, *layout.root_param[key].value), dtype=float))
        tot += float(np.sum(res**2))
    return np.sqrt(tot)


def with_prims(layout, root_prim):
    return lay.Layout(root_prim, layout.root_constraint, layout.root_prim_keys, layout.root_param)
