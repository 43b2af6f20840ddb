"""C09: the construction algebra computes what its operators denote"""

import itertools

import jax.numpy as jnp
import numpy as np

from .. import algebra as al
from .. import build

LEVEL = "exploration"
RULE = (
    "Every well-typed expression up to the depth bound over the atoms (leaf, parameterised, "
    "compound and scalar constructions) with unary operators (negation, plus, products, "
    "quotients and powers with constants and Scalar parameters on either side, partial "
    "application of 0, 1 and all parameters, mapping over 1, 2 and 12 primitives, turning into a "
    "constraint) and the binary sum; also every chain of four operators of a menu, and every documented constraint as operand of every operator. Each real construction object is called on "
    "generic primitives and parameters and compared with the expression's denotation; the "
    "declared signature (argument count) and the operands' own values afterwards are checked as "
    "well. Non-trivial: depth >= 1. Distinct: (expression, arguments)."
)
ASSUMPTIONS = [
    "sums are formed only of constructions with the same tree of outputs (others are rejected by the code)",
    "the order of two Scalar parameters in a product of Scalars is not specified and not judged",
]
ATOL = 1e-9
DEPTH = {"quick": 2, "thorough": 3}
ATOM_NAMES = list(al._BASIC)


def bounds(tier):
    return {"depth": DEPTH[tier], "atoms": ATOM_NAMES, "unary": al.UNARY}


def depth1(e):
    d = al.denote(e)
    return [[op, e] for op in al.UNARY if al.valid(op, d)]


def addable(a, b):
    da, db = al.denote(a), al.denote(b)
    return da.tree == db.tree and da.size == db.size


def cases(tier):
    level = {0: ATOM_NAMES}
    out = [{"top": a, "ops": True, "adds": True} for a in ATOM_NAMES]
    one = [e for a in ATOM_NAMES for e in depth1(a)]
    one += [["add", a, b] for a in ATOM_NAMES for b in ATOM_NAMES if addable(a, b)]
    out += [{"top": e, "ops": True, "adds": "atoms" if tier == "quick" else True} for e in one]
    # More than ten primitives
    for a in ATOM_NAMES:
        if al.denote(a).kinds:
            m = ["map12", a]
            out += [{"top": e, "ops": False, "adds": "self"} for e in (m, ["neg", m], ["constraint", m], ["add", a, m] if addable(a, m) else ["pos", m])]
    # Every documented construction and constraint as an operand
    out += [{"operand": e} for e in al.ATOMS if e not in ATOM_NAMES]
    out += [{"numeric": a} for a in ATOM_NAMES]
    # Long chains of operators
    out += [{"chain": a, "ops": [f, g]} for a in CHAIN_ATOMS for f in CHAIN for g in CHAIN]
    if tier == "thorough":
        two = [e for a in one for e in depth1(a)]
        two += [["add", a, b] for a in one for b in ATOM_NAMES if addable(a, b)]
        out += [{"top": e, "ops": True, "adds": "atoms"} for e in two]
    return out


def evaluate(cons, d, k):
    prims = al.prims_for(d.kinds, k)
    params = al.params_for(d.ptypes, k)
    real = tuple(build.make_any(kind, p) for kind, p in zip(d.kinds, prims))
    with np.errstate(all="ignore"):
        want = np.asarray(d.fn(prims, params), dtype=float)
    got = np.asarray(cons(real, *params), dtype=float)
    return got, want, params


def judge(ctx, e, memo, ks=(0, 1)):
    d = al.denote(e)
    cons = al.make(e, memo)
    sig = cons.signature
    ctx.check(
        len(sig.prim_types) == len(d.kinds) and len(sig.param_types) == len(d.ptypes),
        f"{e}: expects {len(sig.prim_types)} primitives and {len(sig.param_types)} parameters, "
        f"not {len(d.kinds)} and {len(d.ptypes)}",
    )
    for k in ks:
        got, want, params = evaluate(cons, d, k)
        ctx.ev()
        same = got.shape == want.shape and np.allclose(
            got, want, rtol=1e-9, atol=ATOL, equal_nan=True
        )
        ctx.check(
            same, f"{e}: value {got.tolist()} should be {want.tolist()}",
            expression=e, params=params,
        )
        ctx.seen((repr(e), k))


def run_operand(a, ctx):
    memo = {}
    ops = [op for op in al.UNARY if al.valid(op, al.denote(a)) and not op.startswith(("map", "pow"))]
    exprs = [a] + [[op, a] for op in ops] + [["add", a, a], ["neg", ["add", a, a]], ["constraint", ["add", a, a]]]
    if al.denote(a).kinds and len(al.denote(a).kinds) <= 4:
        exprs += [["map1", a], ["map2", a], ["constraint", ["map2", a]]]
    exprs += [["constraint", ["mul:c2", a]], ["mul:S", ["constraint", a]], ["constraint", ["constraint", a]]]
    for e in exprs + [a]:
        judge(ctx, e, memo)
    ctx.sample({"operand": a})


CHAIN = ["neg", "mul:c2", "rmul:S", "div:c-3", "constraint", "map1", "add"]
CHAIN_ATOMS = ["DirectedDistance", "InnerMargin"]


def run_chain(case, ctx):
    """Every chain of four operators of a menu, where add is the sum with the operand itself"""
    memo = {}

    def apply(op, e):
        return ["add", e, e] if op == "add" else [op, e]

    start = case["chain"]
    for op in case["ops"]:
        start = apply(op, start)
    tails = itertools.product(CHAIN, repeat=2 if ctx.quick else 3)
    for tail in tails:
        e = start
        for op in tail:
            if op in al.UNARY and not al.valid(op, al.denote(e)):
                break
            e = apply(op, e)
        else:
            judge(ctx, e, memo, (0,))
    judge(ctx, start, memo, (1,))
    ctx.sample({"expression": e})


NUMBERS = {
    "int": int, "np.int64": np.int64, "np.int32": np.int32, "np.float32": np.float32, "0-d int": np.array,
    "0-d float": lambda x: np.array(float(x)), "jax int": jnp.asarray, "jax float": lambda x: jnp.asarray(float(x)),
}


def run_numeric(a, ctx):
    """Whole numbers of any type as parameters, and primitives with whole coordinates"""
    memo = {}
    for e in [a] + depth1(a) + [["neg", x] for x in depth1(a)] + [["div:S", ["neg", a]], ["constraint", ["div:S", a]]]:
        d = al.denote(e)
        cons = al.make(e, memo)
        prims = [np.round(4 * v) for v in al.prims_for(d.kinds, 0)]
        for name, number in NUMBERS.items():
            for values in ((2, 3, 4), (-1, 2, -3)):
                plain = list(al.params_for(d.ptypes, 0))
                for n, t in enumerate(d.ptypes):
                    if t in ("num", "exp"):
                        plain[n] = values[n % 3]
                typed = [number(v) if t in ("num", "exp") else v for v, t in zip(plain, d.ptypes)]
                with np.errstate(all="ignore"):
                    want = np.asarray(d.fn(prims, [float(v) if t in ("num", "exp") else v for v, t in zip(plain, d.ptypes)]), dtype=float)
                for whole in (True, False):
                    real = tuple(build.make_any(k, v) for k, v in zip(d.kinds, prims))
                    if whole:
                        real = tuple(build.retyped(p, build.NUMBER_TYPES["int64"]) for p in real)
                    try:
                        got = np.asarray(cons(real, *typed), dtype=float)
                    except Exception as exc:
                        ctx.check(False, f"{e}: parameters {plain} as {name}{' and whole coordinates' if whole else ''} raise {type(exc).__name__}: {exc}")
                        continue
                    ctx.ev()
                    ok = got.shape == want.shape and np.allclose(got, want, rtol=1e-6, atol=ATOL, equal_nan=True)
                    ctx.check(ok, f"{e}: value {got.tolist()} for parameters {plain} as {name} should be {want.tolist()}", whole=whole)
                    ctx.seen((repr(e), name, values, whole))
            if not {"num", "exp"} & set(d.ptypes):
                break
    ctx.sample({"expression": e, "parameters": plain})


def run(case, ctx):
    if "operand" in case:
        return run_operand(case["operand"], ctx)
    if "chain" in case:
        return run_chain(case, ctx)
    if "numeric" in case:
        return run_numeric(case["numeric"], ctx)
    top = case["top"]
    memo = {}
    judge(ctx, top, memo)
    exprs = []
    if case["ops"]:
        exprs += depth1(top)
    if case["adds"] == "atoms":
        exprs += [["add", top, b] for b in ATOM_NAMES if addable(top, b)]
        exprs += [["add", top, top]]
    elif case["adds"] == "self":
        exprs += [["add", top, top]]
    elif case["adds"]:
        exprs += [["add", top, top]]
        for a in ATOM_NAMES:
            for b in [a] + depth1(a):
                if addable(top, b):
                    exprs += [["add", top, b], ["add", b, top]]
    for e in exprs:
        judge(ctx, e, memo)
    ctx.sample({"expression": exprs[-1]})
    # Building all of these must not have changed the operands
    for e in [top] + (top[1:] if isinstance(top, list) else []):
        judge(ctx, e, memo)
