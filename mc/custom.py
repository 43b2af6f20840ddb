"""
Primitives and constructions as users define them, by deriving from the documented classes

Independent descriptions of what the constructions return are in `values`.
"""

import jax.numpy as jnp
import numpy as np

from mpllayout import constraints as cr
from mpllayout import constructions as cn
from mpllayout import primitives as pr

## Primitives


class Anchor(pr.Point):
    """A point under another name"""


class Arrow(pr.Line):
    """A line under another name"""


class Panel(pr.Quadrilateral):
    """A quadrilateral under another name"""


class Outline(pr.Polygon):
    """A polygon under another name"""


class Plot(pr.Axes):
    """Axes under another name"""


class Circle(pr.StaticPrimitive):
    """A radius and a center"""

    signature = (1, (pr.Point,))

    @classmethod
    def init_children(cls, prims):
        return ("Center",), prims

    @classmethod
    def default_value(cls):
        return np.array([1.0])

    @classmethod
    def default_prims(cls):
        return (pr.Point([0, 0]),)


class Badge(pr.Primitive):
    """A position, an own frame and, optionally, a circle"""

    signature = (2, {(pr.Quadrilateral,), (pr.Quadrilateral, Circle)})

    def __init__(self, value=None, prims=None, circle=False):
        super().__init__(value, prims, circle=circle)

    @classmethod
    def init_children(cls, prims, circle=False):
        return ("Box", "Circle")[: 1 + circle], prims

    @classmethod
    def default_value(cls, circle=False):
        return np.array([0.5, 0.25])

    @classmethod
    def default_prims(cls, circle=False):
        return (pr.Quadrilateral(), Circle())[: 1 + circle]


DERIVED = {pr.Point: Anchor, pr.Line: Arrow, pr.Quadrilateral: Panel, pr.Polygon: Outline, pr.Axes: Plot}


def derived(prim):
    """The same tree with derived classes everywhere (lines, polygons and points that were shared stay so)"""
    memo = {}

    def go(p):
        if id(p) not in memo:
            memo[id(p)] = DERIVED.get(type(p), type(p)).from_tree(p.value, {k: go(c) for k, c in p.items()})
        return memo[id(p)]

    return go(prim)


## Constructions


class Radius(cn.LeafConstruction):
    @classmethod
    def init_signature(cls):
        return cn.ConstructionSignature((Circle,), (), 1)

    @classmethod
    def assem(cls, prims):
        return prims[0].value


class SetRadius(cn.LeafConstruction):
    """A constraint"""

    @classmethod
    def init_signature(cls):
        return cn.ConstructionSignature((Circle,), (float,), 1)

    @classmethod
    def assem(cls, prims, radius):
        return prims[0].value[0] - radius


class Inside(cn.Construction):
    """The own value of a badge relative to its box's corner and, for circles, radius and center"""

    def __init__(self, circle=False):
        super().__init__(circle=circle)

    @classmethod
    def init_children(cls, circle=False):
        if not circle:
            return (), (), (), lambda params: ()
        return (
            ("Radius", "Center"),
            (SetRadius(), cn.DirectedDistance()),
            (("arg0/Circle",), ("arg0/Box/Line1/Point0", "arg0/Circle/Center")),
            lambda params: ((params[1],), (params[2],)),
        )

    @classmethod
    def init_signature(cls, circle=False):
        return cn.ConstructionSignature((Badge,), (float, float, np.ndarray)[: 1 + 2 * circle], 2)

    @classmethod
    def assem(cls, prims, *params):
        return prims[0].value - params[0] * prims[0]["Box/Line0/Point0"].value


class Spread(cn.LeafConstruction):
    """Three values from two points, an array and a number"""

    @classmethod
    def init_signature(cls):
        return cn.ConstructionSignature((pr.Point, pr.Point), (np.ndarray, float), 3)

    @classmethod
    def assem(cls, prims, array, number):
        d = prims[1].value - prims[0].value
        return jnp.asarray(array) * d[0] + number * d[1]


def v_spread(p, a):
    d = p[1][0] - p[0][0]
    return np.asarray(a[0]) * d[0] + a[1] * d[1]


class Report(cn.Construction):
    """Own value and parts that take some of the parameters, in another order"""

    def __init__(self):
        super().__init__()

    @classmethod
    def init_children(cls):
        return (
            ("Reach", "Base"),
            (cn.DirectedDistance(), cn.Length()),
            (("arg1", "arg0/Line2/Point0"), ("arg0/Line0",)),
            lambda params: ((params[1],), ()),
        )

    @classmethod
    def init_signature(cls):
        return cn.ConstructionSignature((pr.Quadrilateral, pr.Point), (float, np.ndarray), 1)

    @classmethod
    def assem(cls, prims, scale, direction):
        return scale * (prims[1].value[0] - prims[0]["Line3/Point0"].value[1])


def v_report(p, a):
    q, x = p[0], p[1][0]
    return np.array([a[0] * (x[0] - q[3][1]), np.dot(q[2] - x, a[1]), np.hypot(*(q[1] - q[0]))])


class Ledger(cn.Construction):
    """Two own values, reports about the same quadrilateral from different points, and a leaf"""

    def __init__(self, times=2):
        super().__init__(times=times)

    @classmethod
    def init_children(cls, times=2):
        n = range(times)
        return (
            tuple(f"Report{i}" for i in n) + ("Spread",),
            tuple(Report() for _ in n) + (Spread(),),
            tuple(("arg1", ("arg0/Point0", "arg2", "arg0/Point1")[i % 3]) for i in n) + (("arg2", "arg0/Point1"),),
            lambda params: tuple((params[0] + i, params[1]) for i in n) + ((params[2], params[0]),),
        )

    @classmethod
    def init_signature(cls, times=2):
        return cn.ConstructionSignature((pr.Line, pr.Quadrilateral, pr.Point), (float, np.ndarray, np.ndarray), 2)

    @classmethod
    def assem(cls, prims, number, direction, array):
        line = prims[0]
        return number * (line["Point1"].value - prims[2].value)


def v_ledger(times):
    def value(p, a):
        l, q, x = p[0], p[1], p[2]
        pts = (l[:1], x, l[1:])
        out = [a[0] * (l[1] - x[0])]
        out += [v_report((q, pts[i % 3]), (a[0] + i, a[1])) for i in range(times)]
        return np.concatenate(out + [v_spread((x, l[1:]), (a[2], a[0]))])

    return value


class AxesThickness(cn.Construction):
    """The thickness of both axes (or one of them, or also those of the twins) and the position of a label"""

    def __init__(self, axes="XY"):
        super().__init__(axes=axes)

    @classmethod
    def init_children(cls, axes="XY"):
        return (
            tuple(f"{a}Part" for a in axes) + ("Label",),
            tuple(getattr(cr, f"{a}AxisThickness")() for a in axes) + (cr.Fix(),),
            tuple((f"arg0/{a}Axis",) for a in axes) + ((f"arg0/{axes[0]}AxisLabel",),),
            lambda params: tuple((p,) for p in params[: len(axes)]) + (params[len(axes) :],),
        )

    @classmethod
    def init_signature(cls, axes="XY"):
        return cn.ConstructionSignature((pr.Axes,), (object,) * len(axes) + (np.ndarray,), 0)

    @classmethod
    def assem(cls, prims, *params):
        return np.array(())


class MyXAxisThickness(cr.XAxisThickness):
    """A thickness under another name"""


DIRECTION = np.array([0.6, -0.8])
ARRAY = np.array([1.25, -0.5, 2.0])

# name -> (make, kinds, types of parameters, tree, number of values, value of (vertices, parameters), parameters)
VALUES = {
    "Spread": (Spread, "PP", ("array3", "num"), "leaf", 3, v_spread, (ARRAY, 1.5)),
    "Report": (Report, "QP", ("num", "dir"), "Report", 3, v_report, (1.5, DIRECTION)),
    "Ledger": (Ledger, "LQP", ("num", "dir", "array3"), "Ledger", 11, v_ledger(2), (1.5, DIRECTION, ARRAY)),
    "Ledger4": (lambda: Ledger(times=4), "LQP", ("num", "dir", "array3"), "Ledger4", 17, v_ledger(4), (1.5, DIRECTION, ARRAY)),
}
