"""C14: slash-separated keys address exactly one node, and failed edits change nothing"""

import itertools

from mpllayout import constructions as con
from mpllayout import containers as cn
from mpllayout import primitives as pr

LEVEL = "model_checking"
RULE = (
    "Explicit-state breadth-first search over tree editing histories. State: an ordered labelled "
    "tree (up to the names of its values). Transition: add_child or item assignment at every path "
    "up to length 3 over the label alphabet, with a fresh leaf, a fresh two-level subtree or a node "
    "that is already elsewhere in the tree. Every transition is executed on the real `Node` classes "
    "by replaying the history that leads to its state, and the result (or KeyError) and every query "
    "for every path, integer index and slice are compared with an independent nested-list model, with and "
    "without queries between the edits. Also edits everywhere in nodes with up to 40 (thorough: 120) children "
    "and at up to 14 (40) levels."
)
ASSUMPTIONS = [
    "labels without '/' and not longer than three path components; trees up to the stated size",
]

CLASSES = {
    "Node": lambda v, c: cn.Node(v, c),
    "ParamsNode": lambda v, c: con.ParamsNode((v,), c),
    "PrimKeysNode": lambda v, c: con.PrimKeysNode((str(v),), c),
    "PrimitiveNode": lambda v, c: pr.PrimitiveNode.from_tree(v, c),
}
ALPHABETS = {"ab": ("a", "b"), "empty": ("a", ""), "prefix": ("a", "aa"), "odd": ("Axes[0, 1]", "é 0")}


def bounds(tier):
    return {"max_nodes": max_nodes(tier), "depth": depth(tier), "path_length": 3,
            "alphabets": ALPHABETS, "classes": list(CLASSES)}


def max_nodes(tier):
    return 5 if tier == "quick" else 6


def depth(tier):
    return 3 if tier == "quick" else 4


def cases(tier):
    out = []
    for cls in CLASSES:
        for alpha in ALPHABETS:
            if tier == "quick" and cls != "Node" and alpha != "ab":
                continue
            labels = ALPHABETS[alpha]
            for first in range(4):
                out.append({"cls": cls, "alphabet": alpha, "first": first})
        for n in (9, 40) if tier == "quick" else (9, 17, 40, 120):
            out.append({"cls": cls, "wide": n})
        out.append({"cls": cls, "deep": 14 if tier == "quick" else 40})
    return out


class M:
    """Model node: value and a list of [label, child] pairs"""

    def __init__(self, value, kids=()):
        self.value, self.kids = value, [list(k) for k in kids]

    def find(self, label):
        for k, c in self.kids:
            if k == label:
                return c
        return None

    def walk(self, labels):
        node = self
        for label in labels:
            node = node.find(label)
            if node is None:
                return None
        return node

    def size(self):
        return 1 + sum(c.size() for _, c in self.kids)

    def height(self):
        return 0 if not self.kids else 1 + max(c.height() for _, c in self.kids)

    def reaches(self, other):
        return self is other or any(c.reaches(other) for _, c in self.kids)

    def shape(self, ids):
        return (
            ids.setdefault(id(self), len(ids)),
            tuple((k, c.shape(ids)) for k, c in self.kids),
        )


def operations(labels):
    paths = [p for n in (1, 2, 3) for p in itertools.product(labels, repeat=n)]
    ops = []
    for path in paths:
        for kind in ("leaf", "subtree"):
            ops.append(("add", path, kind))
            ops.append(("set", path, kind))
        for src in paths:
            if len(src) <= 2:
                ops.append(("add", path, src))
                ops.append(("set", path, src))
    return paths, ops


class Run:
    """A model tree and an implementation tree, edited in lockstep"""

    def __init__(self, cls, labels):
        self.cls, self.labels, self.n = cls, labels, 0
        self.model, self.impl = self.pair()
        self.twin = {id(self.model): self.impl}
        self.keep = [self.model]

    def pair(self, kids=()):
        """kids: list of (label, (model, impl))"""
        self.n += 1
        m = M(self.n, [(k, mm) for k, (mm, _) in kids])
        i = self.cls(self.n, {k: ii for k, (_, ii) in kids})
        return m, i

    def register(self, m, i):
        self.keep.append(m)
        self.twin[id(m)] = i
        for k, c in m.kids:
            if id(c) not in self.twin:
                self.register(c, i.children[k])

    def apply(self, op):
        """Return None if the operation is outside the model (cycles, missing source)"""
        name, path, kind = op
        if kind == "leaf":
            m, i = self.pair()
        elif kind == "subtree":
            m, i = self.pair([(self.labels[-1], self.pair()), (self.labels[0], self.pair())])
        else:
            m = self.model.walk(kind)
            if m is None:
                return None
            i = self.twin[id(m)]
        parent = self.model.walk(path[:-1])
        if parent is not None and m.reaches(parent):
            return None
        exists = parent is not None and parent.find(path[-1]) is not None
        ok = parent is not None and (exists == (name == "set"))

        key, raised = "/".join(path), None
        try:
            if name == "add":
                self.impl.add_child(key, i)
            else:
                self.impl[key] = i
        except KeyError as exc:
            raised = exc
        if ok:
            if name == "add":
                parent.kids.append([path[-1], m])
            else:
                for kv in parent.kids:
                    if kv[0] == path[-1]:
                        kv[1] = m
            self.register(m, i)
        return ok, raised

    def compare(self, ctx, paths, where):
        m, node = self.model, self.impl
        same = lambda a, b: ctx.check(a == b, f"{where()}: {b!r} instead of {a!r}")
        self.same_tree(ctx, m, node, where)
        for path in paths:
            key = "/".join(path)
            want = m.walk(path)
            has = key in node
            ctx.check(has == (want is not None), f"{where()}: ({key!r} in node) is {has}")
            try:
                got = node[key]
            except KeyError:
                got = None
            ctx.check(
                got is (None if want is None else self.twin[id(want)]),
                f"{where()}: node[{key!r}] is {got!r}, not the node at that path",
            )
            try:
                got = node.get_child(key)
            except KeyError:
                got = None
            ctx.check(
                got is (None if want is None else self.twin[id(want)]),
                f"{where()}: node.get_child({key!r}) is {got!r}",
            )
        n = len(m.kids)
        twins = [self.twin[id(c)] for _, c in m.kids]
        for i in range(-n - 1, n + 1):
            try:
                got = node[i]
            except IndexError:
                got = None
            want = twins[i] if -n <= i < n else None
            ctx.check(got is want, f"{where()}: node[{i}] is {got!r}")
        for sl in (slice(None), slice(1, None), slice(None, -1), slice(None, None, -1), slice(0, 1), slice(None, None, 2)):
            got = node[sl]
            ctx.check(
                isinstance(got, list) and len(got) == len(twins[sl])
                and all(a is b for a, b in zip(got, twins[sl])),
                f"{where()}: node[{sl}] is {got!r}",
            )

    def large(self, ctx, op, paths, done, full):
        touch(self.impl)
        ok, raised = self.apply(op)
        done.append(op)
        ctx.trans()
        ctx.state((type(self.impl).__name__, len(paths), len(done), op))
        where = lambda: f"after {len(done) - 1} edits then {op}"
        ctx.check(ok == (raised is None), f"{where()}: {'raised ' + repr(raised) if ok else 'no KeyError'}")
        if full:
            self.compare(ctx, paths, where)
        else:
            self.same_tree(ctx, self.model, self.impl, where)

    def same_tree(self, ctx, m, node, where):
        ctx.check(node is self.twin[id(m)], f"{where()}: node {m.value} was replaced")
        keys = [k for k, _ in m.kids]
        for got in (list(node.keys()), list(node), [k for k, _ in node.items()], list(node.children)):
            ctx.check(got == keys, f"{where()}: child keys {got} instead of {keys}")
        ctx.check(len(node) == len(keys), f"{where()}: len {len(node)}")
        v = node.value
        v = int(v[0]) if isinstance(v, tuple) else v
        ctx.check(v == m.value, f"{where()}: value {v} instead of {m.value}")
        ctx.check(node.node_height() == m.height(), f"{where()}: height {node.node_height()} instead of {m.height()}")
        for (k, c), val, (k2, item) in zip(m.kids, node.values(), node.items()):
            ctx.check(val is item, f"{where()}: values() and items() differ")
            self.same_tree(ctx, c, item, where)


def run(case, ctx):
    if "alphabet" not in case:
        return run_large(case, ctx)
    cls, labels = CLASSES[case["cls"]], ALPHABETS[case["alphabet"]]
    paths, ops = operations(labels)

    # The first transition is one of the four edits that change an empty tree
    firsts = [("add", (l,), kind) for l in labels for kind in ("leaf", "subtree")]
    first = firsts[case["first"]]

    def build(history, look=False):
        r = Run(cls, labels)
        for op in history:
            if look:
                touch(r.impl)
            r.apply(op)
        if look:
            touch(r.impl)
        return r

    if case["first"] == 0:
        for op in ops:  # all operations on the empty tree
            step(ctx, build, [], op, paths)
    seen = set()
    frontier = [[first]]
    r = build([first])
    seen.add(r.model.shape({}))
    limit = max_nodes(ctx.tier)
    for level in range(1, depth(ctx.tier) + 1):
        nxt = []
        for history in frontier:
            ctx.state((case["cls"], case["alphabet"], build(history).model.shape({})))
            for op in ops:
                r = step(ctx, build, history, op, paths)
                if r is None or level == depth(ctx.tier):
                    continue
                if r.model.size() > limit:
                    continue
                shape = r.model.shape({})
                if shape not in seen:
                    seen.add(shape)
                    nxt.append(history + [op])
        frontier = nxt
    ctx.sample({"class": case["cls"], "labels": labels, "history": frontier[-1:] or [first]})


def step(ctx, build, history, op, paths):
    """The operation after the history, with and without looking at the tree in between"""
    out = None
    for look in (True, False):
        r = build(history, look)
        res = r.apply(op)
        if res is None:
            return None
        ok, raised = res
        ctx.trans()
        ctx.trace()
        where = lambda: f"after {history}{' (looked at after every step)' if look else ''} then {op}"
        ctx.check(
            ok == (raised is None),
            f"{where()}: {'raised ' + repr(raised) if ok else 'no KeyError'}",
        )
        r.compare(ctx, paths, where)
        out = r if ok else None
    return out


def touch(node):
    """Every query of every node"""
    node.node_height(), len(node), node.keys(), node.values(), list(node.items()), list(node), repr(node)
    node[:], list(cn.iter_flat("", node)), cn.flatten("", node), "a" in node, "b/a" in node
    for k, c in node.items():
        node[k], k in node
        touch(c)


def run_large(case, ctx):
    """Nodes with many children and long paths, edited everywhere"""
    cls = CLASSES[case["cls"]]
    n = case.get("wide") or case["deep"]
    # neither in lexical order nor in the order of their numbers
    labels = [f"k{(7 * i + 3) % n if n % 7 else (5 * i + 3) % n}" for i in range(n)]
    if "wide" in case:
        tops = [(), ("k3",), ("k3", labels[-1])]
        at = lambda top, i: top + (labels[i],)
    else:
        tops = [()]
        at = lambda top, i: tuple(labels[: i + 1])
    paths = [at(t, i) for t in tops for i in range(n)] + [at(t, n - 1) + ("x",) for t in tops]
    r, done = Run(cls, labels[:2]), []
    for top in tops:
        for i in range(n):
            for op in (("add", at(top, i), "leaf"), ("add", at(top, i), "leaf"), ("set", at(top, i) + ("x",), "leaf")):
                r.large(ctx, op, paths, done, full=i in (n - 1, n // 2))
    for top in tops[::-1]:
        for i in range(n - 1, -1, -1):
            r.large(ctx, ("add", at(top, i), "leaf"), paths, done, full=False)
            r.large(ctx, ("set", at(top, i), "subtree" if i % 2 else "leaf"), paths, done, full=i in (0, n - 1))
    r.compare(ctx, paths, lambda: f"after {len(done)} edits of a large tree")
    ctx.sample({"class": case["cls"], "labels": labels, "edits": len(done)})
