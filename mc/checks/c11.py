"""C11: constraints and constructions reject wrong primitives and wrong numbers of parameters"""

import functools
import itertools

import numpy as np

from mpllayout import constraints as cr
from mpllayout import constructions as con
from mpllayout import containers as cn
from mpllayout import layout as lay
from mpllayout import primitives as pr

from .. import build, catalogue, oracle

LEVEL = "exploration"
RULE = (
    "Every documented constraint and construction x every sequence of primitive types (point, line, "
    "triangle, four-sided polygon, quadrilateral, axes) with zero to one more than the documented number "
    "of primitives (all sequences for up to four primitives, all single and double substitutions and all "
    "lengths beyond) x every number of parameters from zero to two more than documented x every list "
    "parameter of a grid with a missing or additional entry x every primitive key replaced by a missing "
    "one; every argument replaced by one of a user-defined derived class (accepted) or by something "
    "that is no such primitive; also for composed constructions (sums, products, powers, maps, partial parameters) and for user-defined ones, which are also made "
    "of up to three parts that get one primitive or parameter too few or too many; "
    "by direct call and by add_constraint to a layout that already has constraints. Exactly the "
    "documented combinations are accepted, and after a rejection the layout is unchanged. "
    "Distinct: (use, call form, primitive types, parameters)."
)
ASSUMPTIONS = [
    "the type of the exception is not prescribed",
    "sizes of array-valued parameters other than grid lists are not judged",
]

TYPES = {
    "P": lambda: build.point((1.3, -0.7)),
    "L": lambda: build.line([(0.2, 0.5), (1.4, 0.9)]),
    "G3": lambda: build.polygon([(0, 0), (1.1, 0.5), (0.25, 2)]),
    "G4": lambda: build.polygon([(0, 0), (1.1, 0.5), (0.25, 2), (-1, 1)]),
    "Q": lambda: build.quad([(0, 0.1), (1, 0), (1.2, 1), (0.3, 1.4)]),
    "A": lambda: build.make_any("AxyXY", np.concatenate(
        [np.array(catalogue.generic_vertices((k,), i)[0]) for i, (_, k) in enumerate(build.axes_parts("AxyXY"))])),
}


def fits(kind, t):
    if kind.startswith("A"):
        return t == "A"
    if kind.startswith("G"):
        return t in ("G3", "G4", "Q")
    return kind == t


def all_uses():
    out = [("constraint", u) for u in catalogue.uses()]
    for e in oracle.constructions() + oracle.quad_constructions():
        out.append(("construction", catalogue.Use(e.name, e.make, e.kinds, e.params[(2 * len(e.params)) // 3])))
    out += [("composite", u) for u in composites()]
    for n in (12, 40):
        out.append(("constraint", catalogue.Use(f"OuterMarginArray({n},left)", lambda n=n: cr.OuterMarginArray(n, "left"), ("Q",) * n,
                                                tuple(0.25 + 0.5 * i for i in range(n - 1)))))
    return out


def composites():
    """Constructions built from others: (name, make, kinds, params)"""
    U = catalogue.Use
    s = con.Scalar
    return [
        U("sum", lambda: con.transform_sum(con.Length(), con.XDistance()), "LPP", ()),
        U("difference with parameters", lambda: con.transform_sum(con.PointOnLineDistance(), con.transform_scalar_mul(con.DirectedLength(), -1)),
          "PLL", (True, np.array([1.0, 0.5]))),
        U("negated sum", lambda: con.transform_scalar_mul(con.transform_sum(con.OuterMargin(side="right"), con.InnerMargin(side="right")), -1), "QQQQ", ()),
        U("product with a parameter", lambda: con.transform_scalar_mul(con.AspectRatio(), s()), "Q", (2.0,)),
        U("quotient", lambda: con.transform_scalar_div(con.Length(), s()), "L", (2.0,)),
        U("power", lambda: con.transform_scalar_pow(con.PointToLineDistance(), 2), "PL", (False,)),
        U("power with a parameter", lambda: con.transform_scalar_pow(con.Length(), s()), "L", (2.0,)),
        U("no parameter left", lambda: con.transform_partial(con.PointOnLineDistance(), False), "PL", ()),
        U("constraint", lambda: con.transform_constraint(con.MidpointXDistance()), "LL", (1.0,)),
        U("constraint of a sum", lambda: con.transform_constraint(con.transform_sum(con.Length(), con.XDistance())), "LPP", (1.0,)),
        U("mapped", lambda: con.transform_map(con.Length(), (pr.Line,) * 3), "LLL", ()),
        U("mapped pairs", lambda: con.transform_map(con.XDistance(), (pr.Point,) * 3), "PPP", ()),
        U("mapped with parameters", lambda: con.transform_map(cr.Width(), (pr.Quadrilateral,) * 3), "QQQ", (1.0, 2.0, 3.0)),
        U("mapped constraint pairs", lambda: con.transform_map(cr.InnerMargin(side="left"), (pr.Quadrilateral,) * 3), "QQQ", (1.0, 2.0)),
    ]


class SubPoint(pr.Point):
    pass


class SubLine(pr.Line):
    pass


class SubQuad(pr.Quadrilateral):
    pass


class SubPolygon(pr.Polygon):
    pass


class SubAxes(pr.Axes):
    pass


SUBTYPES = {pr.Point: SubPoint, pr.Line: SubLine, pr.Quadrilateral: SubQuad, pr.Polygon: SubPolygon, pr.Axes: SubAxes}


DIRECTION = np.array([0.6, -0.8])


def subtype(p):
    """The same primitive, of a user-defined class derived from its class"""
    return SUBTYPES[type(p)].from_tree(p.value, dict(p.children))


NOT_PRIMS = {
    "None": lambda p: None, "coordinates": lambda p: np.array([1.0, 2.0]), "a number": lambda p: 1.0, "a key": lambda p: "P_0",
    "a class": type, "a list of it": lambda p: [p], "a tuple of it": lambda p: (p,),
    "a group": lambda p: pr.PrimitiveNode(np.array([]), {}), "a group of the same parts": lambda p: pr.PrimitiveNode(np.array([]), dict(p.children)),
    "a plain tree": lambda p: cn.Node(p.value, {}),
}


def bounds(tier):
    return {"uses": len(all_uses()), "full_product_up_to": full(tier)}


def full(tier):
    return 4 if tier == "quick" else 6


def cases(tier):
    out = [{"use": i, "name": u.name, "what": w} for i, (w, u) in enumerate(all_uses())]
    return out + [{"parts": n, "first": c} for n in range(4) for c in (PARTS if n else ("none",))] + [{"malformed": True}]


@functools.lru_cache(maxsize=None)
def prim(t):
    return TYPES[t]()


def sequences(kinds, limit):
    right = [next(t for t in TYPES if fits(k, t)) for k in kinds]
    n = len(kinds)
    out = set()
    if n + 1 <= limit + 1:
        for m in range(n + 2 if n < limit else n + 1):
            out |= set(itertools.product(TYPES, repeat=m))
    for m in range(n + 2):
        out.add(tuple((right * 3)[:m]) if n else ("Q",) * m)
    where = range(n) if n <= 12 else (0, 1, 9, 10, n - 2, n - 1)
    for i, j in itertools.combinations_with_replacement(where, 2):
        for a, b in itertools.product(TYPES, repeat=2):
            s = list(right)
            s[i], s[j] = a, b
            out.add(tuple(s))
    out.add(tuple(right + right[-1:]))
    return sorted(out, key=lambda s: (len(s), s))


def snapshot(l):
    return [[(k, id(n), id(n.value)) for k, n in cn.iter_flat("", t)]
            for t in (l.root_prim, l.root_constraint, l.root_prim_keys, l.root_param)]


# Names for constraints; some are those of primitives in the layout
KEYS = ("new key", "P_0", "Q_1", "L_0", "Fix1", "A_0", "Box0", "Q_0", "Line0", "L_1", "P_1")


class Target:
    calls = 0

    def __init__(self, ctx, u, what):
        self.ctx, self.u, self.what, self.cons = ctx, u, what, u.make()
        self.layout = lay.Layout()
        for t in TYPES:
            for i in range(2):
                self.layout.add_prim(TYPES[t](), f"{t}_{i}")
        self.layout.add_constraint(cr.Fix(), ("P_0",), ((1.0, 2.0),))
        self.layout.add_constraint(cr.Box(), ("Q_0",), (), "taken")

    def expect(self, ok, seq, keys, params, what):
        u, ctx = self.u, self.ctx
        desc = f"{self.what} {u.name}{u.params}: {what}"
        forms = []
        if seq is not None:
            forms.append(("called", lambda: self.cons(tuple(prim(t) for t in seq), *params)))
        if keys is not None:
            forms.append(("added", lambda: self.layout.add_constraint(self.cons, keys, params)))
            self.calls += 1
            for name in KEYS if ok else {"new key", KEYS[self.calls % len(KEYS)]}:
                forms.append((f"added as {name}", lambda name=name: self.layout.add_constraint(self.cons, keys, params, name)))
        for form, f in forms:
            ctx.ev()
            ctx.seen((self.what, u.name, repr(u.params), form, seq, keys, repr(params)))
            before = snapshot(self.layout)
            try:
                f()
                exc = None
            except Exception as e:
                exc = e
            if ok:
                ctx.check(exc is None, f"{desc}, {form}: rejected with {exc!r}")
                if form != "called":  # start again
                    ctx.check(len(self.layout.root_constraint) == 3, f"{desc}, {form}: not added")
                    self.__init__(ctx, u, self.what)
                ctx.count("accepted")
            else:
                ctx.check(exc is not None, f"{desc}, {form}: accepted")
                ctx.check(snapshot(self.layout) == before, f"{desc}, {form}: the rejected call changed the layout")
                ctx.count("rejected")


    def direct(self, ok, prims, params, what):
        self.ctx.ev()
        self.ctx.seen((self.what, self.u.name, repr(self.u.params), what))
        try:
            self.cons(prims, *params)
            exc = None
        except Exception as e:
            exc = e
        self.ctx.check((exc is None) == ok, f"{self.what} {self.u.name}{self.u.params}: {what}: " + ("accepted" if exc is None else f"rejected with {exc!r}"))
        self.ctx.count("accepted" if ok else "rejected")


def keys_for(seq):
    n = {}
    out = []
    for t in seq:
        out.append(f"{t}_{n.get(t, 0) % 2}")
        n[t] = n.get(t, 0) + 1
    return tuple(out)


# Parts of user-defined constructions: (make, primitives, parameters, number of values)
PARTS = {
    "Length": (con.Length, ("arg0",), (), 1),
    "XDistance": (con.XDistance, ("arg0/Point1", "arg1"), (), 1),
    "DirectedDistance": (con.DirectedDistance, ("arg1", "arg0/Point0"), (DIRECTION,), 1),
    "Fix": (cr.Fix, ("arg1",), ((0.5, 1.5),), 2),
    "Scalar": (con.Scalar, (), (2.5,), 1),
    "CoincidentLines": (cr.CoincidentLines, ("arg0", "arg0"), (False,), 4),
}


def compound(parts, keys, params):
    """A user-defined construction of a line and a point that gives `params` to its parts"""

    class Compound(con.CompoundConstruction):
        @classmethod
        def init_children(cls):
            return [f"part{i}" for i in range(len(parts))], [PARTS[p][0]() for p in parts], keys, lambda given: params

        @classmethod
        def init_signature(cls):
            return con.ConstructionSignature((pr.Line, pr.Point), (), 0)

    return Compound()


def run_parts(case, ctx):
    """User-defined constructions give their parts the right number of primitives and parameters, or are rejected"""
    n = case["parts"]
    for rest in itertools.product(PARTS, repeat=max(n - 1, 0)):
        parts = ((case["first"],) if n else ()) + rest
        keys, params = tuple(PARTS[p][1] for p in parts), tuple(PARTS[p][2] for p in parts)
        options = [(keys, params, True, "as documented"), (list(map(tuple, keys)), list(params), True, "in lists")]
        more = lambda t, extra: [t[:-1]] * bool(t) + [t + extra]
        for i in range(n):
            swap = lambda t, v: t[:i] + (v,) + t[i + 1 :]
            options += [(swap(keys, k), params, False, f"{len(k)} primitives for part {i}") for k in more(keys[i], ("arg0",))]
            options += [(keys, swap(params, q), False, f"{len(q)} parameters for part {i}") for q in more(params[i], (1.0,))]
        options += [(k, params, False, f"primitives for {len(k)} parts") for k in more(keys, (("arg0",),)) + more(keys, ((),))]
        options += [(keys, q, False, f"parameters for {len(q)} parts") for q in more(params, ((),)) + more(params, ((1.0,),))]
        for k, q, ok, name in options:
            what = f"user-defined construction of {parts} with {name}"
            for form in ("called", "added"):
                ctx.ev()
                ctx.seen((parts, name, repr(k), form))
                l = lay.Layout()
                l.add_prim(TYPES["L"](), "L")
                l.add_prim(TYPES["P"](), "P")
                l.add_constraint(cr.Fix(), ("P",), ((1.0, 2.0),))
                before = snapshot(l)
                try:
                    cons = compound(parts, k, q)
                    res = cons((prim("L"), prim("P"))) if form == "called" else l.add_constraint(cons, ("L", "P"), ())
                    exc = None
                except Exception as e:
                    exc = e
                if ok:
                    ctx.check(exc is None, f"{what}, {form}: rejected with {exc!r}")
                    ctx.check(form == "added" or np.size(res) == sum(PARTS[p][3] for p in parts), f"{what}: a value of size {np.size(res)}")
                    ctx.check(form == "called" or len(l.root_constraint) == 2, f"{what}: not added")
                else:
                    ctx.check(exc is not None, f"{what}, {form}: accepted")
                    ctx.check(snapshot(l) == before, f"{what}, {form}: the rejected call changed the layout")
                ctx.count("accepted" if ok else "rejected")
    ctx.sample({"parts": parts})


def run_malformed(ctx):
    """Anything but a construction value and constructions"""
    sig = con.ConstructionSignature((pr.Line,), (), 0)
    none = lambda params: ()
    good = con.ConstructionValue((), none, sig)
    one = con.ConstructionValue((("arg0",),), lambda params: ((),), sig)
    cases = [
        ("no parts", good, {}, True), ("one part", one, {"a": con.Length()}, True),
        ("a plain tuple", tuple(good), {}, False), ("None", None, {}, False), ("an array", np.array(()), {}, False),
        ("two items", ((), none), {}, False),
        ("keys in a dict", con.ConstructionValue({}, none, sig), {}, False), ("keys None", con.ConstructionValue(None, none, sig), {}, False),
        ("parameters not callable", con.ConstructionValue((), (), sig), {}, False),
        ("plain signature", con.ConstructionValue((), none, tuple(sig)), {}, False), ("no signature", con.ConstructionValue((), none, None), {}, False),
    ]
    for name, bad in (("a primitive", TYPES["L"]()), ("a plain tree", cn.Node(1, {})), ("a class", con.Length), ("None", None), ("a number", 1.0)):
        cases.append((f"part is {name}", one, {"a": bad}, False))
    for name, value, kids, ok in cases:
        ctx.ev()
        ctx.seen(name)
        try:
            con.ConstructionNode(value, kids)
            exc = None
        except Exception as e:
            exc = e
        ctx.check((exc is None) == ok, f"construction with {name}: " + ("accepted" if exc is None else f"rejected with {exc!r}"))


def run(case, ctx):
    if "parts" in case:
        return run_parts(case, ctx)
    if "malformed" in case:
        return run_malformed(ctx)
    what, u = all_uses()[case["use"]]
    t = Target(ctx, u, what)
    layouts = what != "construction"
    params = tuple(u.params)
    for seq in sequences(u.kinds, full(ctx.tier)):
        ok = len(seq) == len(u.kinds) and all(fits(k, s) for k, s in zip(u.kinds, seq))
        t.expect(ok, seq, keys_for(seq) if layouts else None, params, f"primitives {seq}")
    right = tuple(next(x for x in TYPES if fits(k, x)) for k in u.kinds)
    keys = keys_for(right) if layouts else None
    for n in range(len(params) + 3):
        if n == len(params):
            continue
        for fill in ((params * 3)[:n] if params else (0.5,) * n, (params + (0.5,) * n)[:n]):
            t.expect(False, right, keys, tuple(fill), f"{n} instead of {len(params)} parameters")
    if layouts:
        for i in range(len(keys)):
            for bad in ("nope", "", keys[i] + "/nope", keys[i] + "/", keys[i].upper() + "x", keys[i] + "x"):
                k = keys[:i] + (bad,) + keys[i + 1 :]
                t.expect(False, None, k, params, f"primitive keys {k}")
        t.expect(False, None, keys[0] if keys else None, params, "a bare primitive key")
    prims = tuple(prim(x) for x in right)
    for i, p in enumerate(prims):
        if ctx.quick and len(prims) > 9 and i not in (0, 9, len(prims) - 1):
            continue
        t.direct(True, prims[:i] + (subtype(p),) + prims[i + 1 :], params, f"argument {i} of a derived class")
        for name, f in NOT_PRIMS.items():
            t.direct(False, prims[:i] + (f(p),) + prims[i + 1 :], params, f"argument {i} is {name}")
    t.direct(True, tuple(subtype(p) for p in prims), params, "all arguments of derived classes")
    if u.name.startswith("Grid"):
        for i, p in enumerate(params):
            p = [float(x) for x in np.ravel(p)]
            for q in ([p[:-1]] if p else []) + [p + [0.5], p + [0.5, 0.5]]:
                for f in (list, tuple, np.array):
                    new = params[:i] + (f(q),) + params[i + 1 :]
                    t.expect(False, right, keys, new, f"list parameter {i} = {q}")
    ctx.sample({"use": u.name, "kinds": u.kinds, "params": u.params})
