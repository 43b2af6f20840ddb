"""C03: solver controls and diagnostics tell the truth"""

import itertools
import warnings

import numpy as np

from mpllayout import constraints as cr
from mpllayout import layout as lay
from mpllayout import primitives as pr
from mpllayout import solver

from .. import build, solving

LEVEL = "model_checking"
RULE = (
    "For every layout of a catalogue (linear, non-linear, over- and under-determined, unsatisfiable, "
    "already satisfied, without constraints, with more than a hundred residuals) the sequence of geometries reached with 0, 1, 2, ... "
    "iterations is explored first (states), with the residual norm of each evaluated by direct calls of "
    "the constraints. Then every combination of iteration limit, absolute and relative tolerance (placed "
    "between all consecutive error values) x method is solved and its error lists, length, stopping "
    "point and geometry are compared with what that sequence prescribes. Also: all arguments at their "
    "defaults, the solvers of the single methods called directly, unknown methods, repetition."
)
ASSUMPTIONS = [
    "newton: one error entry per iteration, evaluated at the geometry the iteration starts from; "
    "minimize: evaluated at the geometry it ends at",
    "most solves run with jax.disable_jit (the same code, uncompiled); a part is repeated compiled",
]


def bounds(tier):
    return {"layouts": list(LAYOUTS), "max_iter": [0, limit(tier)]}


def limit(tier):
    return 5 if tier == "quick" else 10


def linear():
    l = lay.Layout()
    l.add_prim(build.quad([(0, 0.1), (1, 0), (1.2, 1), (0.3, 1.4)]), "Figure")
    l.add_constraint(cr.Box(), ("Figure",), ())
    l.add_constraint(cr.Width(), ("Figure",), (6.0,))
    l.add_constraint(cr.Height(), ("Figure",), (4.0,))
    l.add_constraint(cr.Fix(), ("Figure/Line0/Point0",), ((0.5, -1.0),))
    return l


def triangle():
    l = lay.Layout()
    l.add_prim(build.polygon([(0, 0), (1.1, 0.2), (0.4, 1.3)]), "T")
    for i, v in enumerate((3.0, 4.0, 5.0)):
        l.add_constraint(cr.Length(), (f"T/Line{i}",), (v,))
    l.add_constraint(cr.Fix(), ("T/Line0/Point0",), ((1.0, 2.0),))
    return l


def under():
    l = lay.Layout()
    l.add_prim(build.line([(0, 0), (1.1, 0.2)]), "L")
    l.add_constraint(cr.Length(), ("L",), (3.0,))
    return l


def unsatisfiable():
    l = lay.Layout()
    l.add_prim(build.point((0.25, 0.5)), "P")
    l.add_constraint(cr.Fix(), ("P",), ((1.0, 2.0),))
    l.add_constraint(cr.Fix(), ("P",), ((3.0, 5.0),))
    return l


def unsatisfiable_triangle():
    l = lay.Layout()
    l.add_prim(build.polygon([(0, 0), (1.1, 0.2), (0.4, 1.3)]), "T")
    for i, v in enumerate((1.0, 1.0, 5.0)):
        l.add_constraint(cr.Length(), (f"T/Line{i}",), (v,))
    return l


def over():
    l = triangle()
    l.add_constraint(cr.Orthogonal(), ("T/Line0", "T/Line1"), ())
    l.add_constraint(cr.Length(), ("T/Line0",), (3.0,))
    return l


def satisfied():
    l = lay.Layout()
    l.add_prim(build.point((1.0, 2.0)), "P")
    l.add_constraint(cr.Fix(), ("P",), ((1.0, 2.0),))
    return l


def free():
    l = lay.Layout()
    l.add_prim(build.point((1.0, 2.0)), "P")
    l.add_prim(build.box(0, 0, 1, 2), "Q")
    return l


def nothing_to_do():
    l = lay.Layout()
    l.add_prim(build.box(0.0, 0.0, 1.0, 2.0), "Q")
    l.add_constraint(cr.Box(), ("Q",), ())
    return l


def many():
    """More than a hundred residuals and coordinates, not all of them satisfiable"""
    l = lay.Layout()
    for n in range(52):
        l.add_prim(build.point((0.5, 0.25 * n)), f"P{n}")
        l.add_constraint(cr.Fix(), (f"P{n}",), ((1.0 + 0.125 * n, 2.0),))
    l.add_prim(build.polygon([(0, 0), (1.1, 0.2), (0.4, 1.3)]), "T")
    for i, v in enumerate((3.0, 4.0, 5.0)):
        l.add_constraint(cr.Length(), (f"T/Line{i}",), (v,))
    l.add_constraint(cr.Fix(), ("P0",), ((4.0, 2.0),))
    return l


LAYOUTS = {f.__name__: f for f in (linear, triangle, under, unsatisfiable, unsatisfiable_triangle, over,
                                   satisfied, free, nothing_to_do, many)}


def cases(tier):
    out = []
    for name in LAYOUTS:
        for k in range(limit(tier) + 1) if name != "many" else (1, 3) if tier == "quick" else (1, 2, 3, 5):
            out.append({"layout": name, "method": "newton", "max_iter": k})
        out.append({"layout": name, "method": "minimize"})
    out.append({"arguments": True})
    return out


def x(prim):
    c = solving.coords(prim)
    return np.concatenate([c[k] for k in sorted(c)])


def run(case, ctx):
    if "arguments" in case:
        return run_arguments(ctx)
    make = LAYOUTS[case["layout"]]
    if case["method"] == "minimize":
        return run_minimize(case["layout"], make, ctx)
    k = case["max_iter"]
    # The sequence of geometries
    geo, err = [], []
    for n in range(k + 1):
        l = make()
        sol, info = solving.solve(l, abs_tol=0.0, rel_tol=0.0, max_iter=n)
        geo.append(x(sol))
        err.append(solving.residual_norm(l, sol))
        ctx.state((case["layout"], n))
        if len(info["abs_errs"]) < n:
            break
    ctx.check(np.array_equal(geo[0], x(make().root_prim)), f"{case}: max_iter=0 changes the geometry to {geo[0]}")
    n_max = len(geo) - 1
    tols = [0.0]
    for a, b in zip(err, err[1:]):
        if a > 1e-9 and b > 1e-9 and abs(a - b) > 1e-6:
            tols.append(np.sqrt(a * b))
    tols += [1e-10, 0.5 * err[0], 2 * err[0] + 1.0]
    rel = [0.0, 1e-7, 1.5] + ([t / err[0] for t in tols[1:]] if err[0] > 1e-9 else [])
    tols, rel = sorted(set(tols)), sorted(set(rel))
    for at, rt in itertools.product(tols, rel):
        if case["layout"] == "many" and (at > 0 and rt > 0):
            continue
        if ctx.quick and at > 1e-9 and rt > 1e-6 and (tols.index(at) + rel.index(rt)) % 3:
            continue
        l = make()
        jit = at == tols[-1] and rt == 0.0 and k in (1, 3)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sol, info = solving.solve(l, jit=jit, abs_tol=at, rel_tol=rt, max_iter=k)
        w = f"{case['layout']} with abs_tol={at:.3g} rel_tol={rt:.3g} max_iter={k}"
        ctx.trans()
        ctx.trace()
        # the number of iterations this prescribes
        n, stop = 0, False
        while n < k and not stop:
            e = err[n]
            near = lambda a, b: abs(a - b) < 1e-9 * (1 + abs(b))
            stop = e <= at or (err[0] > 0 and e / err[0] <= rt)
            if near(e, at) or (err[0] > 1e-9 and near(e / err[0], rt)):
                stop = None
            n += 1
            if stop is None:
                break
        ae, re_ = list(map(float, info["abs_errs"])), list(map(float, info["rel_errs"]))
        ctx.check(len(ae) == len(re_) <= k, f"{w}: {len(ae)} absolute and {len(re_)} relative errors")
        if stop is not None and not (err[0] < 1e-9):
            ctx.check(len(ae) == n, f"{w}: {len(ae)} iterations instead of {n}", errors=ae, sequence=err)
        ctx.check(np.allclose(ae, err[: len(ae)], rtol=1e-6, atol=1e-9),
                  f"{w}: abs_errs {ae} but the residual norms are {err[:len(ae)]}")
        if ae and ae[0] > 0:
            ctx.check(np.allclose(re_, np.array(ae) / ae[0], rtol=1e-9), f"{w}: rel_errs {re_} for abs_errs {ae}")
        ctx.check(np.allclose(x(sol), geo[min(len(ae), n_max)], rtol=1e-7, atol=1e-8) or (ae and ae[-1] < 1e-12),
                  f"{w}: the geometry is not the one after {len(ae)} iterations", solution=x(sol), expected=geo[min(len(ae), n_max)])
        if len(ae) < k and ae and ae[-1] > 1e-12:
            ctx.check(ae[-1] <= at or re_[-1] <= rt, f"{w}: stopped at {ae[-1]:.3g} before the tolerance", errors=ae)
    ctx.sample({"layout": case["layout"], "max_iter": k, "errors": err, "abs_tols": tols})


def run_minimize(name, make, ctx):
    l0 = make()
    r0 = solving.residual_norm(l0)
    for k in (2, 50) if name == "many" else (1, 2, 4, 50) if ctx.quick else (1, 2, 3, 4, 6, 10, 50, 400):
        for at, rt in ((1e-10, 1e-7), (0.0, 0.0), (0.3 * r0 + 1e-9, 0.0), (0.0, 0.25), (2 * r0 + 1, 0.0)):
            l = make()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                sol, info = solving.solve(l, method="minimize", abs_tol=at, rel_tol=rt, max_iter=k)
            ae, re_ = list(map(float, info["abs_errs"])), list(map(float, info["rel_errs"]))
            w = f"{name} minimized with abs_tol={at:.3g} rel_tol={rt:.3g} max_iter={k}"
            ctx.trans()
            ctx.trace()
            ctx.state((name, "minimize", tuple(np.round(x(sol), 6))))
            ctx.check(len(ae) == len(re_) <= k, f"{w}: {len(ae)} absolute and {len(re_)} relative errors")
            end = solving.residual_norm(l, sol)
            ctx.check(end <= r0 * (1 + 1e-9) + 1e-12, f"{w}: the residual grew from {r0} to {end}")
            if ae:
                ctx.check(np.isclose(ae[-1], end, rtol=1e-6, atol=1e-8), f"{w}: the last abs_err is {ae[-1]}, the residual norm {end}")
                if ae[0] > 0:
                    ctx.check(np.allclose(re_, np.array(ae) / ae[0], rtol=1e-9), f"{w}: rel_errs {re_} for abs_errs {ae}")
                    for a, r in list(zip(ae, re_))[:-1]:
                        ctx.check(a >= at and r >= rt, f"{w}: iterated on after {a} (relative {r})", errors=ae)
            else:
                ctx.check(np.allclose(x(sol), x(make().root_prim), atol=1e-9) or r0 > 1e-6, f"{w}: moved without an iteration")
    if name in ("linear", "triangle", "under", "over", "satisfied", "free"):
        sol, info = solving.solve(make(), method="minimize", max_iter=500)
        end = solving.residual_norm(make(), sol)
        ctx.check(end < 1e-3, f"{name} minimized: the residual norm is still {end}")
    ctx.sample({"layout": name, "method": "minimize", "last": ae})


def run_arguments(ctx):
    for name, make in LAYOUTS.items():
        for m in ("", "Newton", "newton ", "lbfgs", "minimise", None, 0):
            try:
                solver.solve(make(), method=m)
            except Exception:
                ctx.trans()
                continue
            ctx.fail(f"method {m!r} was accepted")
        # The solvers of the single methods, with the same arguments and defaults
        for m, direct in (("newton", solver.solve_newton), ("minimize", solver.solve_minimize)):
            for args in ((), (1e-3,), (1e-3, 1e-2), (1e-9, 1e-9, 2)):
                if name == "many" and args:
                    continue
                kw = dict(zip(("abs_tol", "rel_tol", "max_iter"), args))
                a, ia = solving.solve(make(), method=m, **kw)
                for call in ((args, {}), ((), kw)) if args else (((), {}),):
                    b, ib = solving.uncompiled(m)(direct)(make(), *call[0], **call[1])
                    ctx.trans()
                    ctx.check(np.array_equal(x(a), x(b)) and np.array_equal(ia["abs_errs"], ib["abs_errs"])
                              and np.array_equal(ia["rel_errs"], ib["rel_errs"], equal_nan=True),
                              f"{name}: the {m} solver with {call} differs from solve(method={m!r})", errors=[ia, ib])
        if name.startswith("unsat") or name == "many":
            continue
        # defaults: newton until converged
        a, ia = solving.solve(make())
        b, ib = solving.solve(make(), method="newton")
        c, ic = solving.solve(make(), 1e-10, 1e-7, 10, "newton")
        d, id_ = solving.solve(make(), jit=True)
        for s, i in ((b, ib), (c, ic), (d, id_)):
            ctx.trans()
            ctx.check(np.allclose(x(a), x(s), atol=1e-9) and len(i["abs_errs"]) == len(ia["abs_errs"]),
                      f"{name}: the default method, tolerances and limit are not the documented ones", errors=[ia, i])
        a2, ia2 = solving.solve(make())
        ctx.check(np.array_equal(x(a), x(a2)) and ia["abs_errs"] == ia2["abs_errs"], f"{name}: two solves differ")
        if name != "free":
            ctx.check(solving.residual_norm(make(), a) < 1e-7, f"{name}: not converged with the default arguments")
        e, ie = solving.solve(make(), method="minimize", max_iter=7)
        f, if_ = solving.solve(make(), 1e-10, 1e-7, 7, "minimize")
        ctx.check(np.array_equal(x(e), x(f)) and ie["abs_errs"] == if_["abs_errs"], f"{name}: two minimizations differ")
        ctx.trans(2)
    ctx.trace()
    ctx.state("arguments")
