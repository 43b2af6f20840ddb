"""C13: parameter updates change exactly what they name, and never the original layout"""

import functools
import itertools

import matplotlib.pyplot as plt
import numpy as np

from mpllayout import constraints as cr
from mpllayout import containers as cn
from mpllayout import layout as lay
from mpllayout import solver

from .. import build, custom
from . import c06

LEVEL = "model_checking"
RULE = (
    "(1) All assignments of three parameter values to the constraints of a layout (plain, array-valued, "
    "grid, margin array, axis thickness) as states, and every update_root_param call naming one or two "
    "constraints (in both orders), every constraint, none, or also an invalid entry, as transitions: the "
    "new tree must equal that of a layout built directly with those parameters, keep the very objects of "
    "the parameters not named, and leave the old tree unchanged. (2) All histories of "
    "update_layout_constraints and edits (add_constraint, add_prim, replacing a primitive) over a growing "
    "family of layouts (with thickness and other constraints, only one of these kinds, none, or empty), compared with independent per-layout models: updates touch only thickness "
    "parameters and no edit of one layout shows in another. (3) Updates between (nearly) equal parameters and "
    "flags of constraints at every position: the exact values must arrive. (4) Layouts with 48 constraints: every "
    "single update, updates of all and of every second one. (5) Layouts with up to 13 axes and thickness "
    "constraints between others, updated with matplotlib axes in two orders, also as parts of user-defined and mapped constraints."
)
ASSUMPTIONS = [
    "thickness values are compared with a direct call of the thickness constraint on the same "
    "matplotlib axis (what is measured is decided by C19)",
]


def bounds(tier):
    return {"assignments": 3 ** len(ITEMS), "history_depth": hist_depth(tier), "layouts": 3}


def hist_depth(tier):
    return 3 if tier == "quick" else 4


P = lambda: build.point((0.5, 0.25))
QS = {
    "P": P,
    "L": lambda: build.line([(0.1, 0.2), (1.7, 0.9)]),
    "Q": lambda: build.quad([(0, 0.1), (1, 0), (1.2, 1), (0.3, 1.4)]),
    "R": lambda: build.quad([(3, 0.2), (4.5, 0), (4.2, 1.1), (3.3, 1.6)]),
    "S": lambda: build.quad([(6, 0.3), (7.5, 0), (7.2, 1.3), (6.3, 1.7)]),
}
G = [c06.params_for((1, 2), k) for k in range(3)]
ITEMS = [
    # key, make, primitive keys, three parameter sets, wrong parameters
    ("Fix0", lambda: cr.Fix(), ("P",), [((5.0, 6.0),), ((0.5, -1.0),), ((2.0, 2.5),)], ()),
    ("len", lambda: cr.Length(), ("L",), [(2.0,), (3,), (0.25,)], (1.0, 2.0)),
    ("a grid", lambda: cr.Grid((1, 2)), ("Q", "R"), G, G[0][:3]),
    ("m", lambda: cr.OuterMarginArray(3, "right"), ("Q", "R", "S"),
     [(0.1, 0.2), (0.2, 0.1), (0.0, 1.5)], (0.1,)),
    ("YLength0", lambda: cr.YLength(), ("L",), [(0.5,), (1.5,), (-2.0,)], ()),
]


@functools.lru_cache(maxsize=None)
def item_constraint(i):
    return ITEMS[i][1]()


def layout_for(assign):
    l = lay.Layout()
    for k, f in QS.items():
        l.add_prim(f(), k)
    for i, (key, _, keys, params, _) in enumerate(ITEMS):
        l.add_constraint(item_constraint(i), keys, params[assign[i]], key)
    return l


def residual(layout, root_param=None):
    if root_param is not None:
        layout = lay.Layout(layout.root_prim, layout.root_constraint, layout.root_prim_keys, root_param)
    res = solver.assem_constraint_residual(layout.root_prim, *layout.flat_constraints())
    return np.sort(np.concatenate([np.zeros(0)] + [np.ravel(np.asarray(r, dtype=float)) for r in res]))


@functools.lru_cache(maxsize=None)
def item_residual(i, k):
    _, make, keys, params, _ = ITEMS[i]
    return np.ravel(np.asarray(make()(tuple(QS[q]() for q in keys), *params[k]), dtype=float))


def snapshot(tree):
    return [(k, type(n), n.value, id(n)) for k, n in cn.iter_flat("", tree)]


def same_snapshot(a, b):
    return len(a) == len(b) and all(
        x[0] == y[0] and x[1] is y[1] and x[2] is y[2] and x[3] == y[3] for x, y in zip(a, b)
    )


def equal_value(a, b):
    """Equal nested tuples, lists, arrays, numbers, ... (exactly)"""
    if a is b:
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(equal_value(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype.kind != "O" and bool(np.array_equal(a, b))


FINE = [
    # make, primitive kinds, parameters, parameters that are nearly the same
    (lambda: cr.Fix(), ("P",), (np.array([1.0, 2.0]),),
     [(np.array([1.0, 2.0 + d]),) for d in (1e-9, 4.5e-16, -1e-12)] + [(np.array([2.0, 1.0]),), ([1.0, 2.5],)]),
    (lambda: cr.Length(), ("L",), (1.0,), [(1.0 + d,) for d in (1e-9, 3e-16, -1e-12)] + [(np.float32(1.5),), (2,)]),
    (lambda: cr.DirectedDistance(), ("P", "P"), (np.array([1.0, 0.0]), 0.5),
     [(np.array([0.0, 1.0]), 0.5), (np.array([1.0, 1e-10]), 0.5), (np.array([1.0, 0.0]), 0.5 + 1e-12)]),
    (lambda: cr.CoincidentLines(), ("L", "L"), (True,), [(False,)]),
    (lambda: cr.CoincidentLines(), ("L", "L"), (False,), [(True,)]),
    (lambda: cr.PointToLineDistance(), ("P", "L"), (True, 1.0), [(False, 1.0), (True, 0.0), (False, 0.0)]),
    (lambda: cr.PointToLineDistance(), ("P", "L"), (False, 0.0), [(False, 1.0), (True, 0.0), (True, 1.0), (False, -0.5)]),
    (custom.Spread, ("P", "P"), (custom.ARRAY, 1.5), [(custom.ARRAY + d, 1.5) for d in (1e-9, -1e-12)] + [(custom.ARRAY, 1.5 + 1e-12), ([1, 2, 3], 2)]),
    (custom.Report, ("Q", "P"), (1.5, custom.DIRECTION), [(1.5 + 1e-10, custom.DIRECTION), (1.5, -custom.DIRECTION), (2, np.array([1.0, 0.0]))]),
    (lambda: custom.Ledger(times=12), ("L", "Q", "P"), (1.5, custom.DIRECTION, custom.ARRAY),
     [(1.5 + 1e-10, custom.DIRECTION, custom.ARRAY), (1.5, -custom.DIRECTION, custom.ARRAY), (0.5, custom.DIRECTION, custom.ARRAY + 1e-11)]),
    (lambda: cr.OuterMarginArray(shape=12, side="right"), ("Q",) * 12, (0.5,) * 11,
     [tuple(0.5 + (1e-9 if j == i else 0.0) for j in range(11)) for i in range(11)]),
    (lambda: cr.Grid((1, 12)), ("Q",) * 12, ([1.0] * 11, [], [0.5] * 11, []),
     [([1.0] * i + [1.0 + 1e-10] + [1.0] * (10 - i), [], [0.5] * 11, []) for i in range(0, 11, 5)]
     + [([1.0] * 11, [], [0.5] * i + [0.25] + [0.5] * (10 - i), []) for i in range(0, 11, 5)]),
]


def run_fine(case, ctx):
    """Updates by nearly equal parameters, in trees with other constraints on both sides"""
    make, kinds, params, news = FINE[case["fine"]]
    cons = make()
    for pos, p in itertools.product(range(3), [params] + news):
        l = lay.Layout()
        for n, k in enumerate(kinds):
            l.add_prim(build.make(k, np.arange(2.0 * build.npts(k)) ** 1.5 + n), f"p{n}")
        l.add_prim(build.point((0, 1)), "other")
        l.add_prim(build.line([(0, 1), (2, 3)]), "line")
        others = [lambda: l.add_constraint(cr.Fix(), ("other",), (np.array([1.0, 2.0]),), "before"),
                  lambda: l.add_constraint(cr.Length(), ("line",), (1.0,), "after")]
        mine = lambda: l.add_constraint(cons, tuple(f"p{n}" for n in range(len(kinds))), p, "it")
        for f in others[:pos] + [mine] + others[pos:]:
            f()
        old = [(k, n.value) for k, n in cn.iter_flat("", l.root_param)]
        for q in [params] + news:
            new = lay.update_root_param(l.root_constraint, l.root_param, {"it": q})
            ctx.trans()
            got = [(k, n.value) for k, n in cn.iter_flat("", new)]
            # The same tree as from a layout with these parameters
            m = lay.Layout()
            for n, k in enumerate(kinds):
                m.add_prim(build.make(k, np.arange(2.0 * build.npts(k)) ** 1.5 + n), f"p{n}")
            m.add_constraint(cons, tuple(f"p{n}" for n in range(len(kinds))), q, "it")
            want = {k: n.value for k, n in cn.iter_flat("", m.root_param)}
            want.update({k: v for k, v in old if not (k == "/it" or k.startswith("/it/"))})
            ctx.check([k for k, _ in got] == [k for k, _ in old], f"update of {p} to {q}: keys {got}")
            for k, v in got:
                ctx.check(equal_value(v, want[k]), f"update of {p} to {q}: parameters of {k!r} are {v} instead of {want[k]}")
            now = [(k, n.value) for k, n in cn.iter_flat("", l.root_param)]
            ctx.check(len(now) == len(old) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(now, old)),
                      f"update of {p} to {q}: the original changed")
        ctx.seen(("fine", case["fine"], pos, repr(p)))
    ctx.sample({"constraint": type(cons).__name__, "params": params, "updates": len(news)})


def cases(tier):
    out = [{"fine": i} for i in range(len(FINE))]
    out += [{"many": i} for i in range(3)] + [{"many_axes": n} for n in (1, 11, 13)]
    out += [{"assign": list(a)} for a in itertools.product(range(3), repeat=len(ITEMS))]
    ops = [o for o in hist_ops(1)]
    out += [{"history": [a, b], "base": kind} for kind in BASES
            for a in range(len(ops)) for b in range(len(hist_ops(2)))]
    return out


def run(case, ctx):
    if "history" in case:
        return run_history(case, ctx)
    if "fine" in case:
        return run_fine(case, ctx)
    if "many" in case:
        return run_many(case, ctx)
    if "many_axes" in case:
        return run_many_axes(case, ctx)
    run_assign(tuple(case["assign"]), ctx)


def run_assign(assign, ctx):
    layout = layout_for(assign)
    before = [snapshot(t) for t in (layout.root_param, layout.root_constraint, layout.root_prim_keys, layout.root_prim)]
    ctx.state(assign)
    expected = lambda a: np.sort(np.concatenate([item_residual(i, k) for i, k in enumerate(a)]))
    res0 = residual(layout)
    ctx.check(np.allclose(res0, expected(assign)), f"assignment {assign}: wrong residuals {res0}")

    def check_original(what):
        after = [snapshot(t) for t in (layout.root_param, layout.root_constraint, layout.root_prim_keys, layout.root_prim)]
        for a, b in zip(before, after):
            ctx.check(same_snapshot(a, b), f"{what}: the original layout changed",
                      before=[x[:3] for x in a], after=[x[:3] for x in b])

    n = len(ITEMS)
    updates = [()] + [((i, k),) for i in range(n) for k in range(3)]
    updates += [((i, k), (j, m)) for i in range(n) for j in range(n) if i != j
                for k in range(3) for m in range(3)]
    updates += [tuple((i, (assign[i] + s) % 3) for i in range(n)) for s in (1, 2)]
    for upd in updates:
        names = {ITEMS[i][0]: ITEMS[i][3][k] for i, k in upd}
        what = f"update of {names} from parameters {assign}"
        new = lay.update_root_param(layout.root_constraint, layout.root_param, names)
        check_original(what)
        target = list(assign)
        for i, k in upd:
            target[i] = k
        ctx.trans()
        ctx.trace()
        ctx.check(new.keys() == layout.root_param.keys(), f"{what}: keys {new.keys()}")
        ctx.check([k for k, _ in cn.iter_flat("", new)] == [k for k, _ in cn.iter_flat("", layout.root_param)],
                  f"{what}: the new tree has another structure")
        for i, (key, *_ ) in enumerate(ITEMS):
            got = new[key].value
            if any(i == j for j, _ in upd):
                want = names[key]
                ctx.check(len(got) == len(want) and all(equal_value(a, b) for a, b in zip(got, want)),
                          f"{what}: parameters of {key} are {got}")
            else:
                a = [(k, n.value) for k, n in cn.iter_flat("", new[key])]
                b = [(k, n.value) for k, n in cn.iter_flat("", layout.root_param[key])]
                ctx.check(len(a) == len(b) and all(x[0] == y[0] and equal_value(x[1], y[1]) for x, y in zip(a, b)),
                          f"{what}: parameters of {key} changed to {got}")
        # Residuals through the new tree: every single update, and a fixed part of the double ones
        if len(upd) != 2 or upd[0][1] == upd[1][1] == (assign[0] + 1) % 3:
            res = residual(layout, new)
            ctx.check(np.allclose(res, expected(target)),
                      f"{what}: residuals {res.tolist()} instead of {expected(target).tolist()}")
            ctx.count("residual_comparisons")
        # Edits of the new tree don't reach the original
        if len(upd) <= 1:
            new["len"] = item_constraint(1).root_params((77.0,))
            new.add_child("another", item_constraint(1).root_params((78.0,)))
            check_original(f"{what}, then edits of the new tree")

    # Invalid updates
    for i, (key, _, _, params, wrong) in enumerate(ITEMS):
        for names in ({key: wrong}, {"Fix0": ITEMS[0][3][0], key: wrong}, {"nope": params[0]},
                      {key: params[0], "nope": ()}):
            try:
                lay.update_root_param(layout.root_constraint, layout.root_param, names)
            except Exception:
                pass
            else:
                ctx.fail(f"update with {names} did not raise")
            check_original(f"failing update with {names}")
            ctx.trans()
    # Single nested constraints
    flat = [k for k, _ in cn.iter_flat("", layout.root_constraint)][1:]
    for path in flat:
        path = path[1:]
        params = layout.root_param[path].value
        new = lay.update_root_param(layout.root_constraint, layout.root_param, {path: params})
        ctx.check(np.allclose(residual(layout, new), res0), f"setting {path} to its own parameters changes residuals")
        check_original(f"update of {path}")
        ctx.trans()
    if assign == (0,) * n:
        ctx.sample({"keys": [i[0] for i in ITEMS], "updates": len(updates)})


def run_many(case, ctx):
    """Updates of a layout with 48 constraints"""
    auto = case["many"] == 1

    def build_layout(assign):
        l = lay.Layout()
        for k, f in QS.items():
            l.add_prim(f(), k)
        for n in range(48):
            i = n % len(ITEMS)
            l.add_constraint(item_constraint(i), ITEMS[i][2], ITEMS[i][3][assign[n]], "" if auto else f"c{n * 7 % 48}")
        return l

    start = [(n // len(ITEMS) + case["many"]) % 3 for n in range(48)]
    layout = build_layout(start)
    keys = layout.root_constraint.keys()
    before = [snapshot(t) for t in (layout.root_param, layout.root_constraint, layout.root_prim_keys, layout.root_prim)]
    updates = [{n: (start[n] + 1) % 3} for n in range(48)] + [{n: (start[n] + 2) % 3} for n in range(48)]
    updates += [{n: (start[n] + 1) % 3 for n in range(lo, 48, step)} for lo, step in ((0, 1), (0, 2), (1, 2), (36, 1), (0, 11))]
    updates += [{n: (start[n] + 2) % 3 for n in reversed(range(48))}]
    for upd in updates:
        new = lay.update_root_param(layout.root_constraint, layout.root_param,
                                    {keys[n]: ITEMS[n % len(ITEMS)][3][k] for n, k in upd.items()})
        target = [upd.get(n, k) for n, k in enumerate(start)]
        want = build_layout(target).root_param
        got = [(k, n.value) for k, n in cn.iter_flat("", new)]
        ref = [(k, n.value) for k, n in cn.iter_flat("", want)]
        what = f"48 constraints, update of {[keys[n] for n in upd]}"
        ctx.check([k for k, _ in got] == [k for k, _ in ref], f"{what}: the keys are {[k for k, _ in got]}")
        for (k, a), (_, b) in zip(got, ref):
            ctx.check(equal_value(a, b), f"{what}: the parameters of {k!r} are {a} instead of {b}")
        after = [snapshot(t) for t in (layout.root_param, layout.root_constraint, layout.root_prim_keys, layout.root_prim)]
        ctx.check(all(same_snapshot(a, b) for a, b in zip(before, after)), f"{what}: the original changed")
        ctx.trans()
        ctx.seen(("many", case["many"], tuple(upd)))
        if len(upd) > 1 or list(upd)[0] % 12 == 11:
            res, ex = residual(layout, new), np.sort(np.concatenate([item_residual(n % len(ITEMS), k) for n, k in enumerate(target)]))
            ctx.check(np.allclose(res, ex), f"{what}: residuals {res.tolist()} instead of {ex.tolist()}")
    ctx.sample({"constraints": 48, "updates": len(updates)})


def run_many_axes(case, ctx):
    """Thickness constraints of many axes between other constraints"""
    from ..catalogue import generic_vertices

    n = case["many_axes"]
    for version in range(2):
        fig = plt.figure(figsize=(8, 6))
        axs = {}
        for i in range(n):
            ax = fig.add_axes(((i % 5) / 5 + 0.05, (i // 5) / 4 + 0.05, 0.1, 0.15))
            ax.tick_params(axis="x", labelsize=5 + i + 3 * version)
            ax.tick_params(axis="y", labelsize=6 + i)
            ax.set_ylim(0, 10.0 ** (i % 6 + version))
            axs[f"G{i % 2}/Ax{i}" if i % 3 == 1 else f"Ax{i}"] = ax
        nested_updates(ctx, n, version, axs)
        for order in (1, -1):
            l = lay.Layout()
            for g in ("G0", "G1"):
                l.add_prim(build.pr.PrimitiveNode(np.array([]), {}), g)
            prims = {}
            for i, k in enumerate(axs):
                prims[k] = build.make_any("Axy", generic_vertices(AXES, i)[0])
                l.add_prim(prims[k], k)
            l.add_prim(point(0), "P")
            want = []
            for i, k in enumerate(list(axs)[::order]):
                for A in ("X", "Y") if i % 2 else ("Y", "X"):
                    cls = getattr(cr, f"{A}AxisThickness")
                    l.add_constraint(cls(), (f"{k}/{A}Axis",), (None,))
                    want.append(np.ravel(np.asarray(cls()((prims[k][f"{A}Axis"],), getattr(axs[k], f"{A.lower()}axis")), dtype=float)))
                if i % 3 == 0:
                    l.add_constraint(cr.Fix(), ("P",), ((1.0, 2.0 + i),))
                    want.append(np.ravel(np.asarray(cr.Fix()((point(0),), (1.0, 2.0 + i)), dtype=float)))
            before = [snapshot(t) for t in (l.root_param, l.root_constraint, l.root_prim_keys, l.root_prim)]
            for given in (axs, dict(reversed(axs.items()))):
                new = lay.update_layout_constraints(l, given)
                constraints, keys, params = new.flat_constraints()
                res = [np.ravel(r) for r in solver.assem_constraint_residual(new.root_prim, constraints, keys, params)]
                res = [r for r in res if r.size]
                ctx.trans()
                ctx.seen(("many_axes", n, version, order, given is axs))
                ctx.check(len(res) == len(want), f"{n} axes: {len(res)} residuals instead of {len(want)}")
                for i, (a, b) in enumerate(zip(res, want)):
                    ctx.check(np.allclose(np.sort(a), np.sort(b), atol=1e-9), f"{n} axes: after the update constraint {i} has the residual {a} instead of {b}")
                after = [snapshot(t) for t in (l.root_param, l.root_constraint, l.root_prim_keys, l.root_prim)]
                ctx.check(all(same_snapshot(a, b) for a, b in zip(before, after)), f"{n} axes: the original changed")
        plt.close(fig)


def nested_updates(ctx, n, version, axs):
    """Thickness constraints as parts of others (user-defined or mapped) and of derived classes"""
    from ..catalogue import generic_vertices

    l = lay.Layout()
    for g in ("G0", "G1"):
        l.add_prim(build.pr.PrimitiveNode(np.array([]), {}), g)
    prims, want, axis = {}, {}, lambda k, A: getattr(axs[k], f"{A.lower()}axis")
    for i, k in enumerate(axs):
        prims[k] = build.make_any("Axy", generic_vertices(AXES, i)[0])
        l.add_prim(prims[k] if i % 2 else custom.derived(prims[k]), k)
    thick = lambda k, A: np.ravel(np.asarray(getattr(cr, f"{A}AxisThickness")()((prims[k][f"{A}Axis"],), axis(k, A)), dtype=float))
    for i, k in enumerate(axs):
        parts = ("XY", "YX", "X", "Y")[i % 4]
        place = (0.5 + i, -1.0)
        l.add_constraint(custom.AxesThickness(parts), (k,), (None,) * len(parts) + (place,), f"both{i}")
        for A in parts:
            want[f"/both{i}/{A}Part"] = (axis(k, A),), thick(k, A)
        if i % 3 == 0:
            l.add_constraint(custom.MyXAxisThickness(), (f"{k}/XAxis",), (None,), f"own{i}")
            want[f"/own{i}"] = (axis(k, "X"),), thick(k, "X")
        if i % 3 == 1:
            l.add_constraint(-cr.YAxisThickness(), (f"{k}/YAxis",), (None,), f"negative{i}")
            want[f"/negative{i}"] = (axis(k, "Y"),), -thick(k, "Y")
    for A in "XY":
        mapped = cr.con.transform_map(getattr(cr, f"{A}AxisThickness")(), [build.pr.Quadrilateral] * n)
        l.add_constraint(mapped, tuple(f"{k}/{A}Axis" for k in axs), (None,) * n, f"all {A}")
        for k, key in zip(axs, mapped.keys()):
            want[f"/all {A}/{key}"] = (axis(k, A),), thick(k, A)
    before = [snapshot(t) for t in (l.root_param, l.root_constraint, l.root_prim_keys, l.root_prim)]
    old = {k: n.value for k, n in cn.iter_flat("", l.root_param)}
    new = lay.update_layout_constraints(l, axs)
    got = {k: n.value for k, n in cn.iter_flat("", new.root_param)}
    what = f"{n} axes with thickness constraints in others"
    ctx.trans()
    ctx.seen(("nested", n, version))
    ctx.check(list(got) == list(old), f"{what}: keys {list(got)}")
    for k in got:
        if k in want:
            ctx.check(len(got[k]) == 1 and got[k][0] is want[k][0][0], f"{what}: {k} has the parameters {got[k]}")
        elif not any(k.startswith(f"{w}/") for w in want):
            ctx.check(got[k] is old[k] or equal_value(got[k], old[k]), f"{what}: {k} has the parameters {got[k]} instead of {old[k]}")
    res = solver.assem_constraint_residual(new.root_prim, *new.flat_constraints())
    keys = [k for k, _ in cn.iter_flat("", new.root_constraint)][1:]
    res = dict(zip(keys, list(res)[-len(keys) :]))
    for k, (_, w) in want.items():
        r = np.concatenate([np.ravel(v) for key, v in res.items() if f"{key}/".startswith(f"{k}/")])
        ctx.check(r.shape == w.shape and np.allclose(r, w, atol=1e-9), f"{what}: {k} has the residual {r} instead of {w}")
    after = [snapshot(t) for t in (l.root_param, l.root_constraint, l.root_prim_keys, l.root_prim)]
    ctx.check(all(same_snapshot(a, b) for a, b in zip(before, after)), f"{what}: the original changed")


## Histories over a family of layouts


@functools.lru_cache(maxsize=None)
def mpl_axes(v):
    fig = plt.figure(figsize=(4, 3))
    axs = {}
    for k, (key, rect) in enumerate((("A", (0.2, 0.2, 0.25, 0.6)), ("B", (0.6, 0.2, 0.3, 0.6)))):
        ax = fig.add_axes(rect)
        ax.tick_params(labelsize=6 + 5 * v + 2 * k)
        ax.set_ylim(0, 10.0 ** (2 * v + k))
        axs[key] = ax
    axs["unused"] = fig.add_axes((0.1, 0.1, 0.1, 0.1))
    return axs


def hist_ops(nlayouts):
    ops = []
    for i in range(nlayouts):
        if nlayouts < 3:
            ops += [("update", i, 0), ("update", i, 1)]
        ops += [("fix", i, None), ("thick", i, None), ("prim", i, None), ("move", i, None)]
    return ops


AXES = ("Axy",)


def thick_prims():
    from ..catalogue import generic_vertices

    return {"A": build.make_any("Axy", generic_vertices(AXES, 0)[0]),
            "B": build.make_any("Axy", generic_vertices(AXES, 1)[0])}


THICK = {
    "AX": (cr.XAxisThickness, "A", "XAxis"),
    "AY": (cr.YAxisThickness, "A", "YAxis"),
    "BX": (cr.XAxisThickness, "B", "XAxis"),
    "BY": (cr.YAxisThickness, "B", "YAxis"),
}


@functools.lru_cache(maxsize=None)
def thick_residual(which, v):
    cls, axes, axis = THICK[which]
    mpl = None if v is None else getattr(mpl_axes(v)[axes], axis.lower())
    return np.ravel(np.asarray(cls()((thick_prims()[axes][axis],), mpl), dtype=float))


@functools.lru_cache(maxsize=None)
def fix_residual(moved):
    return np.ravel(np.asarray(cr.Fix()((point(moved),), (1.0, 2.0)), dtype=float))


def point(moved):
    return build.point((3.0 + moved, 4.0))


BASES = ["mixed", "plain", "only", "none", "empty"]


def base(kind):
    """Layouts with thickness and other constraints, only one of these kinds, none at all, or empty"""
    l = lay.Layout()
    if kind == "empty":
        return l, {"cons": [], "prims": [], "moved": 0}
    for k, p in thick_prims().items():
        l.add_prim(p, k)
    l.add_prim(point(0), "P")
    cons = []
    if kind in ("mixed", "plain"):
        l.add_constraint(cr.Fix(), ("P",), ((1.0, 2.0),), "f")
        cons.append(["f", "fix"])
    if kind in ("mixed", "only"):
        l.add_constraint(cr.XAxisThickness(), ("A/XAxis",), (None,))
        cons.append([None, "AX", None])
    if kind in ("mixed", "plain"):
        l.add_constraint(cr.Length(), ("A/Frame/Line0",), (2.0,), "len")
        cons.append(["len", "len"])
    if kind in ("mixed", "only"):
        l.add_constraint(cr.YAxisThickness(), ("B/YAxis",), (None,))
        cons.append([None, "BY", None])
    # [constraint keys and kinds], primitive keys, how often P was moved
    return l, {"cons": cons, "prims": ["A", "B", "P"], "moved": 0}


@functools.lru_cache(maxsize=None)
def len_residual():
    return np.ravel(np.asarray(cr.Length()((thick_prims()["A"]["Frame/Line0"],), 2.0), dtype=float))


def apply(layouts, models, op):
    name, i, v = op
    l, m = layouts[i], models[i]
    if name == "update":
        layouts.append(lay.update_layout_constraints(l, mpl_axes(v)))
        new = {"cons": [list(c) for c in m["cons"]], "prims": list(m["prims"]), "moved": m["moved"]}
        for c in new["cons"]:
            if c[1] in THICK:
                c[2] = v
        models.append(new)
    elif name == "fix":
        l.add_constraint(cr.Fix(), ("P",), ((1.0, 2.0),))
        m["cons"].append([None, "fix"])
    elif name == "thick":
        which = sorted(THICK)[len(m["cons"]) % 4]
        cls, axes, axis = THICK[which]
        l.add_constraint(cls(), (f"{axes}/{axis}",), (None,))
        m["cons"].append([None, which, None])
    elif name == "prim":
        key = f"Z{len(m['prims'])}"
        l.add_prim(build.point((9.0, 9.0)), key)
        m["prims"].append(key)
    elif name == "move":
        m["moved"] += 1
        l.root_prim["P"] = point(m["moved"])


def freeze(m):
    return (tuple(map(tuple, m["cons"])), tuple(m["prims"]), m["moved"])


def check(ctx, layouts, models, where):
    for i, (l, m) in enumerate(zip(layouts, models)):
        at = f"{where()}: layout {i}"
        ctx.check(l.root_prim.keys() == m["prims"], f"{at} has primitives {l.root_prim.keys()} not {m['prims']}")
        keys = l.root_constraint.keys()
        ctx.check(len(keys) == len(m["cons"]) and all(c[0] in (None, k) for k, c in zip(keys, m["cons"])),
                  f"{at} has constraints {keys} instead of {m['cons']}")
        struct = [[k for k, _ in cn.iter_flat("", t)] for t in (l.root_constraint, l.root_prim_keys, l.root_param)]
        ctx.check(struct[0] == struct[1] == struct[2], f"{at}: trees differ", trees=struct)
        want = []
        for c in m["cons"]:
            want.append(fix_residual(m["moved"]) if c[1] == "fix" else len_residual() if c[1] == "len"
                        else thick_residual(c[1], c[2]))
        want = np.sort(np.concatenate([np.zeros(0), *want]))
        res = residual(l)
        ctx.check(res.shape == want.shape and np.allclose(res, want, atol=1e-9),
                  f"{at}: residuals {res.tolist()} instead of {want.tolist()}")
        for p, t in zip(("A", "B"), thick_prims().values()) if "A" in m["prims"] else ():
            got = [tuple(np.asarray(n.value)) for _, n in cn.iter_flat("", l.root_prim[p])]
            ctx.check(got == [tuple(np.asarray(n.value)) for _, n in cn.iter_flat("", t)],
                      f"{at}: primitive {p} changed")


def run_history(case, ctx):
    first = hist_ops(1)[case["history"][0]]
    second = hist_ops(2)[case["history"][1]]
    n1 = 2 if first[0] == "update" else 1
    kind = case["base"]
    enabled = lambda op: kind != "empty" or op[0] in ("update", "prim")
    if second not in hist_ops(n1) or not enabled(first) or not enabled(second):
        return
    depth = hist_depth(ctx.tier) if kind in ("mixed", "empty") or not ctx.quick or first[0] == "update" else 2
    stack = [[first, second]]
    if case["history"][1] == 0:
        stack.append([first])
    while stack:
        h = stack.pop()
        layouts, models = map(list, zip(base(kind)))
        for op in h:
            apply(layouts, models, op)
        ctx.trans(len(h))
        ctx.trace()
        ctx.state(("history", kind, tuple(map(freeze, models))))
        check(ctx, layouts, models, lambda: f"after {h} ({kind} layout)")
        if 2 <= len(h) < depth:
            for op in filter(enabled, hist_ops(len(layouts))):
                stack.append(h + [op])
    if case["history"][1] == 0:
        ctx.sample({"history": h})
