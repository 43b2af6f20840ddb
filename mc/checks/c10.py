"""C10: a constraint means the same wherever it is evaluated"""

import itertools

import jax
import numpy as np

from mpllayout import layout as lay
from mpllayout import primitives as pr
from mpllayout import solver

from .. import build, catalogue

LEVEL = "exploration"
RULE = (
    "Every documented constraint in one generic use, evaluated (1) by a direct call, (2) through a "
    "layout's flat constraint list for every naming scheme of its primitives (plain, exchanged "
    "argument names, names that are prefixes of each other, names with blanks and brackets, "
    "primitives nested in other primitives) x automatic or explicit key x alone or between other "
    "constraints, (3) under jax.jit, (4) with every numeric type for its scalars and mixed types in its sequences, and (5) with "
    "repeated (every way to repeat arguments) or point-sharing arguments; plus every ordered pair of constraints in one layout, "
    "also on shared primitives; all constraints at once in one layout in four orders, on own and on shared primitives; and every constraint 13 times in one layout. The residual components must be the same everywhere. "
    "Non-trivial: the residual is non-empty or the form is documented. Distinct: (constraint, form)."
)
ASSUMPTIONS = [
    "residual components are compared as multisets: their order within a constraint is not specified",
]


def bounds(tier):
    return {"uses": len(catalogue.uses()), "pairs": "all ordered pairs" if tier == "thorough"
            else "all ordered pairs of uses with at most 4 primitives"}


SCHEMES = {
    "plain": lambda n: [f"Prim{i}" for i in range(n)],
    "args": lambda n: [f"arg{i}" for i in range(n)],
    "args_reversed": lambda n: [f"arg{n - 1 - i}" for i in range(n)],
    "args_shifted": lambda n: [f"arg{i + 1}" for i in range(n)],
    "prefix": lambda n: ["A" * (i + 1) for i in range(n)],
    "brackets": lambda n: [f"Axes[{i}, 0] x" for i in range(n)],
    "childlike": lambda n: (["Line0", "Frame", "Point0", "Line1", "Point1", "XAxis"] + [f"Line{i}" for i in range(2, n)])[:n],
}


def close(a, b):
    a, b = np.sort(np.ravel(a)), np.sort(np.ravel(b))
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-10, equal_nan=True)


def layout_residual(layout, jit=False):
    constraints, keys, params = layout.flat_constraints()

    def f(root):
        return solver.assem_constraint_residual(root, constraints, keys, params)

    if jit:
        f = jax.jit(f)
    res = [np.ravel(np.asarray(r, dtype=float)) for r in f(layout.root_prim)]
    return np.concatenate(res) if res else np.zeros(0)


def nest(kind, prim, key, k):
    """Put `prim` inside a bigger primitive; return (container, key, path)"""
    if kind == "P":
        other = build.point((9.0 + k, 4.0))
        if k % 2:
            return pr.Line(prims=(other, prim)), key, f"{key}/Point1"
        return pr.Line(prims=(prim, other)), key, f"{key}/Point0"
    if kind == "L":
        a, b = prim["Point0"], prim["Point1"]
        c = build.point((5.0 + k, -3.0))
        if k % 2:
            return pr.Polygon(None, [c, a, b], size=3), key, f"{key}/Line1"
        return pr.Polygon(None, [a, b, c], size=3), key, f"{key}/Line0"
    if kind == "Q":
        decoy = lambda: build.box(30.0 + k, 1.0, 33.0, 4.5)
        if k % 3 == 0:
            return pr.Axes(None, (prim,)), key, f"{key}/Frame"
        if k % 3 == 1:
            return (
                pr.Axes(None, (decoy(), prim, build.point((1.0, 1.0))), xaxis=True),
                key, f"{key}/XAxis")
        return (
            pr.Axes(None, (decoy(), decoy(), build.point((1.0, 2.0)), prim,
                           build.point((1.0, 1.0))), xaxis=True, yaxis=True),
            key, f"{key}/YAxis")
    return pr.PrimitiveNode(np.array([]), {"Inner": prim}), key, f"{key}/Inner"


NUMERIC = [
    ("int", lambda v: int(v)), ("float", float), ("np.float64", np.float64),
    ("np.float32", np.float32), ("np.int64", lambda v: np.int64(v)),
    ("0-d array", lambda v: np.array(v)), ("0-d int array", lambda v: np.array(int(v))),
    ("jax scalar", lambda v: jax.numpy.asarray(v)),
]


def cases(tier):
    us = catalogue.uses()
    out = [{"use": i, "name": u.name} for i, u in enumerate(us)]
    small = [i for i, u in enumerate(us) if len(u.kinds) <= (4 if tier == "quick" else 9)]
    out += [{"pairs": i, "name": us[i].name, "others": small} for i in small]
    n = len(us)
    orders = {"forward": list(range(n)), "backward": list(range(n))[::-1],
              "odd first": list(range(1, n, 2)) + list(range(0, n, 2)),
              "outside in": [i // 2 if i % 2 == 0 else n - 1 - i // 2 for i in range(n)]}
    out += [{"crowd": order, "shared": shared, "name": name}
            for name, order in orders.items() for shared in (False, True)]
    out += [{"repeat": i, "name": us[i].name} for i in small]
    return out


def run(case, ctx):
    if "pairs" in case:
        return run_pairs(case, ctx)
    if "crowd" in case:
        return run_crowd(case, ctx)
    if "repeat" in case:
        return run_repeat(case, ctx)
    u = catalogue.uses()[case["use"]]
    cons, prims = u.make(), u.prims()
    direct = np.ravel(np.asarray(cons(prims, *u.params)))

    def same(res, form):
        ctx.ev()
        ctx.seen((u.name, form))
        ctx.check(
            close(res, direct),
            f"{u.name}{u.params}: residual {np.round(res, 9).tolist()} in form '{form}' differs "
            f"from the direct call {np.round(direct, 9).tolist()}",
        )

    same(cons(prims, *u.params), "repeated call")
    same(u.make()(u.prims(), *u.params), "new objects")
    same(jax.jit(lambda p: cons(p, *u.params))(prims), "jit")

    other = [
        ("Fix", lambda l: l.add_constraint(_fix(), ("Decoy",), (np.array([5.0, 6.0]),))),
        ("Box", lambda l: l.add_constraint(_box(), ("DecoyQuad",), ())),
    ]
    decoy_res = [np.ravel(_fix()((build.point((0.5, 0.25)),), np.array([5.0, 6.0]))),
                 np.ravel(_box()((_decoy_quad(),)))]

    for scheme, names in SCHEMES.items():
        keys = names(len(u.kinds))
        for key in ("", "my key", "Fix0"):
            l = lay.Layout()
            for name, prim in zip(keys, u.prims()):
                l.add_prim(prim, name)
            l.add_constraint(u.make(), tuple(keys), u.params, key)
            same(layout_residual(l), f"layout {scheme} key={key!r}")
        same(layout_residual(l, jit=True), f"layout {scheme} jit")
        # primitives added in reversed order, constraint between others
        l = lay.Layout()
        l.add_prim(build.point((0.5, 0.25)), "Decoy")
        for name, prim in reversed(list(zip(keys, u.prims()))):
            l.add_prim(prim, name)
        l.add_prim(_decoy_quad(), "DecoyQuad")
        other[0][1](l)
        l.add_constraint(u.make(), tuple(keys), u.params)
        other[1][1](l)
        res = layout_residual(l)
        ctx.check(
            close(res, np.concatenate([direct, *decoy_res])),
            f"{u.name}: residuals in a layout with other constraints ({scheme}) are "
            f"{np.round(res, 9).tolist()} instead of those of the direct calls",
        )
        ctx.ev()
        ctx.seen((u.name, "between", scheme))

    for off in range(3):
        l, paths = lay.Layout(), []
        for n, (kind, prim) in enumerate(zip(u.kinds, u.prims())):
            c, key, path = nest(kind, prim, f"Outer{n}", n + off)
            l.add_prim(c, key)
            paths.append(path)
        l.add_constraint(u.make(), tuple(paths), u.params)
        same(layout_residual(l), f"nested {off}")

    # types of numbers of the coordinates
    whole = tuple(build.retyped(p, lambda v: np.round(8 * v)) for p in prims)
    ref = np.ravel(np.asarray(cons(whole, *u.params), dtype=float))
    for name, conv in build.NUMBER_TYPES.items():
        typed = tuple(build.retyped(p, conv) for p in whole)
        l = lay.Layout()
        for i, prim in enumerate(typed):
            l.add_prim(prim, f"P{i}")
        l.add_constraint(u.make(), tuple(f"P{i}" for i in range(len(typed))), u.params)
        for form, res in (("direct", cons(typed, *u.params)), ("layout", layout_residual(l)), ("jit", layout_residual(l, jit=True))):
            res = np.ravel(np.asarray(res, dtype=float))
            ctx.check(res.shape == ref.shape and np.allclose(np.sort(res), np.sort(ref), rtol=1e-5, atol=1e-5, equal_nan=True),
                      f"{u.name}: {name} coordinates ({form}) change the residual from {ref.tolist()} to {res.tolist()}")
            ctx.ev()
            ctx.seen((u.name, "coordinates", name, form))

    # numeric types for scalar parameters (with an exactly representable value)
    for i, p in enumerate(u.params):
        if isinstance(p, bool) or not isinstance(p, (float, int)):
            continue
        ref = None
        for name, f in NUMERIC:
            pp = list(u.params)
            pp[i] = f(2.0)
            res = np.ravel(np.asarray(cons(prims, *pp), dtype=float))
            ref = res if ref is None else ref
            ctx.check(close(res, ref), f"{u.name}: parameter 2 given as {name} changes the "
                      f"residual from {ref.tolist()} to {res.tolist()}")
            ctx.ev()
            ctx.seen((u.name, "type", i, name))
    for i, p in enumerate(u.params):
        if isinstance(p, bool):
            for v in (True, False):
                refs = [*u.params[:i], v, *u.params[i + 1 :]]
                ref = np.ravel(np.asarray(cons(prims, *refs), dtype=float))
                for f in (np.bool_, int, float, np.array, np.int64):
                    pp = list(u.params)
                    pp[i] = f(v)
                    res = np.ravel(np.asarray(cons(prims, *pp), dtype=float))
                    ctx.check(close(res, ref), f"{u.name}: parameter {v} given as {f(v)!r} changes "
                              f"the residual from {ref.tolist()} to {res.tolist()}")
                    ctx.ev()
                    ctx.seen((u.name, "flag", i, v, f.__name__))
    for i, p in enumerate(u.params):
        if isinstance(p, np.ndarray) and "Directed" not in u.name and "user-defined" not in u.name:
            for f in (list, tuple, jax.numpy.asarray):
                pp = list(u.params)
                pp[i] = f(p)
                same(cons(prims, *pp), f"parameter {i} as {f.__name__}")
        if isinstance(p, list):
            for f in (tuple, np.array):
                pp = list(u.params)
                pp[i] = f(p)
                same(cons(prims, *pp), f"parameter {i} as {f.__name__}")

    # sequences that mix types of numbers
    for i, p in enumerate(u.params):
        if not isinstance(p, (list, np.ndarray)) or np.ndim(p) != 1 or np.size(p) == 0:
            continue
        free = isinstance(p, list) or "Directed" not in u.name and "user-defined" not in u.name
        n = len(p)
        for j in range(-1, n):
            # whole numbers but one
            values = [k + 1.5 if k == j else k + 2.0 for k in range(n)]
            pp = list(u.params)
            pp[i] = np.array(values)
            ref = np.ravel(np.asarray(cons(prims, *pp), dtype=float))
            whole = [v if k == j else int(v) for k, v in enumerate(values)]
            forms = {"array": np.array(whole), "list": whole, "tuple": tuple(whole),
                     "numpy numbers": [np.float64(v) if k == j else np.int64(v) for k, v in enumerate(values)],
                     "single precision": [np.float32(v) if k == j else np.int32(v) for k, v in enumerate(values)],
                     "jax array": jax.numpy.asarray(whole)}
            for name, value in forms.items():
                if not free and "array" not in name:
                    continue
                pp[i] = value
                res = np.ravel(np.asarray(cons(prims, *pp), dtype=float))
                ctx.check(close(res, ref), f"{u.name}: parameter {values} given as {name} {value} changes the "
                          f"residual from {ref.tolist()} to {res.tolist()}")
                ctx.ev()
                ctx.seen((u.name, "mixed", i, j, name))

    # The same primitive passed for several arguments
    if len(u.kinds) == 2 and u.kinds[0] == u.kinds[1]:
        a = prims[0]
        ref = np.ravel(np.asarray(cons((a, u.prims()[0]), *u.params)))
        l = lay.Layout()
        l.add_prim(u.prims()[0], "A")
        l.add_constraint(u.make(), ("A", "A"), u.params)
        for form, res in (
            ("direct", cons((a, a), *u.params)), ("layout", layout_residual(l)),
            ("jit", layout_residual(l, jit=True)),
        ):
            ctx.check(close(res, ref), f"{u.name}: the same primitive for both arguments "
                      f"({form}) gives {np.ravel(res).tolist()} instead of {ref.tolist()}")
            ctx.ev()
            ctx.seen((u.name, "alias", form))
    # The same primitive passed for two of several arguments
    if len(u.kinds) > 2:
        n = len(u.kinds)
        pairs = [(i, j) for i in range(n) for j in range(n) if i != j and u.kinds[i] == u.kinds[j]]
        if n > 4 and ctx.quick:
            pairs = [(i, j) for i, j in pairs if j in ((i + 1) % n, n - 1 - i, 0)]
        for i, j in pairs:
            args, sep, names = list(u.prims()), list(u.prims()), [f"P{m}" for m in range(n)]
            args[j], sep[j], names[j] = args[i], u.prims()[i], names[i]
            ref = np.ravel(np.asarray(cons(tuple(sep), *u.params)))
            l = lay.Layout()
            for m in range(n):
                if m != j:
                    l.add_prim(u.prims()[m], names[m])
            l.add_constraint(u.make(), tuple(names), u.params)
            for form, res in (("direct", cons(tuple(args), *u.params)), ("layout", layout_residual(l))):
                ctx.check(close(res, ref), f"{u.name}: argument {i} also given as argument {j} ({form}) gives "
                          f"{np.ravel(res).tolist()} instead of {ref.tolist()}")
                ctx.ev()
                ctx.seen((u.name, "repeated", form, i, j))
    # Lines sharing vertices in one polygon
    if set(u.kinds) <= {"L", "P"}:
        verts = catalogue.generic_vertices(("G5",))[0]
        poly = build.polygon(verts)
        for sel in itertools.permutations(range(5), len(u.kinds)):
            paths, sep = [], []
            for kind, i in zip(u.kinds, sel):
                paths.append(f"Poly/Line{i}" + ("/Point0" if kind == "P" else ""))
                ends = [verts[i], verts[(i + 1) % 5]]
                sep.append(build.make(kind, ends[:1] if kind == "P" else ends))
            ref = np.ravel(np.asarray(cons(tuple(sep), *u.params)))
            l = lay.Layout()
            l.add_prim(build.polygon(verts), "Poly")
            l.add_constraint(u.make(), tuple(paths), u.params)
            res = layout_residual(l)
            ctx.check(close(res, ref), f"{u.name} on {paths}: {res.tolist()} instead of "
                      f"{ref.tolist()} on separate primitives", vertices=verts)
            ctx.ev()
            ctx.seen((u.name, "shared", sel))
    ctx.sample({"constraint": u.name, "params": u.params, "residual": direct})


def _fix():
    from mpllayout import constraints as cr

    return cr.Fix()


def _box():
    from mpllayout import constraints as cr

    return cr.Box()


def _decoy_quad():
    return build.quad([(0, 0.1), (1, 0), (1.2, 1), (0.3, 1.4)])


def run_pairs(case, ctx):
    us = catalogue.uses()
    u = us[case["pairs"]]
    ra = np.ravel(np.asarray(u.make()(u.prims(), *u.params)))
    for j in case["others"]:
        v = us[j]
        l = lay.Layout()
        ka = [f"A{i}" for i in range(len(u.kinds))]
        for key, prim in zip(ka, u.prims()):
            l.add_prim(prim, key)
        # share primitives of the same kind, add the missing ones
        free, kb, pb = dict(), [], []
        pool = {kind: [k for k, kk in zip(ka, u.kinds) if kk == kind] for kind in set(v.kinds)}
        for i, (kind, prim) in enumerate(zip(v.kinds, v.prims(1))):
            if pool[kind]:
                key = pool[kind].pop()
            else:
                key = f"B{i}"
                l.add_prim(prim, key)
            kb.append(key)
            pb.append(l.root_prim[key])
        rb = np.ravel(np.asarray(v.make()(tuple(pb), *v.params)))
        l.add_constraint(u.make(), tuple(ka), u.params)
        l.add_constraint(v.make(), tuple(kb), v.params)
        res = layout_residual(l)
        ctx.check(
            close(res, np.concatenate([ra, rb])),
            f"{u.name} then {v.name} in one layout: residuals {np.round(res, 9).tolist()} instead "
            f"of {np.round(np.concatenate([ra, rb]), 9).tolist()}",
            first=[u.name, ka], second=[v.name, kb],
        )
        ctx.ev()
        ctx.seen(("pair", u.name, v.name))


def compare_list(layout, want, names, ctx, form):
    """The residual of every constraint of a big layout, one after the other"""
    constraints, keys, params = layout.flat_constraints()
    res = solver.assem_constraint_residual(layout.root_prim, constraints, keys, params)
    sizes = [len(np.ravel(r)) for r in res]
    flat = np.concatenate([np.ravel(np.asarray(r, dtype=float)) for r in res])
    total = np.concatenate(want)
    if not ctx.check(flat.shape == total.shape,
                     f"{form}: {flat.size} residual components instead of {total.size}", sizes=sizes):
        return
    at = 0
    for name, w in zip(names, want):
        got = flat[at : at + w.size]
        at += w.size
        ctx.check(close(got, w), f"{form}: {name} has the residual {np.round(got, 9).tolist()} instead "
                  f"of {np.round(w, 9).tolist()}")
        ctx.ev()
        ctx.seen((form, name))


def run_crowd(case, ctx):
    """Every documented constraint at once in one layout"""
    us = catalogue.uses()
    l, want, names, pools = lay.Layout(), [], [], {}
    for n, i in enumerate(case["crowd"]):
        u = us[i]
        keys, taken = [], {}
        for m, (kind, prim) in enumerate(zip(u.kinds, u.prims(n % 7))):
            pool = pools.setdefault(kind, [])
            at = taken.get(kind, 0)
            if case["shared"] and at < len(pool):
                keys.append(pool[at])
            else:
                keys.append(f"{kind}_{n}_{m}")
                l.add_prim(prim, keys[-1])
                pool.append(keys[-1])
            taken[kind] = at + 1
        args = tuple(l.root_prim[k] for k in keys)
        want.append(np.ravel(np.asarray(u.make()(args, *u.params))))
        names.append(f"{n}: {u.name}")
        l.add_constraint(u.make(), tuple(keys), u.params)
    compare_list(l, want, names, ctx, f"all constraints {case['name']} shared={case['shared']}")


def run_repeat(case, ctx):
    """One type of constraint many times in one layout, on different primitives"""
    u = catalogue.uses()[case["repeat"]]
    l, want, names = lay.Layout(), [], []
    for n in range(13):
        keys = [f"K{n}_{m}" for m in range(len(u.kinds))]
        prims = u.prims(n)
        for k, prim in zip(keys, prims):
            l.add_prim(prim, k)
        params = tuple(p + 0.125 * n if isinstance(p, float) else p for p in u.params)
        want.append(np.ravel(np.asarray(u.make()(prims, *params))))
        names.append(f"{n}")
        l.add_constraint(u.make(), tuple(keys), params)
    compare_list(l, want, names, ctx, f"{u.name} 13 times")
