"""C30 Dependency order: every node once, predecessors first, cycles and strangers refused."""
import random

from hypothesis import strategies as st

from core import Prop, Sub, raises, require, same
from immutablecollections import immutableset, immutablesetmultidict
from vistautils._graph import Digraph, ParameterInterpolationError


def has_cycle(nodes, edges):
    before = {n: set() for n in nodes}
    for a, b in edges:
        before[b].add(a)
    after = {n: [] for n in nodes}
    for b, many in before.items():
        for a in many:
            after[a].append(b)
    # take away what nothing left comes before
    count = {n: len(x) for n, x in before.items()}
    free = [n for n in nodes if not count[n]]
    taken = 0
    while free:
        taken += 1
        for b in after[free.pop()]:
            count[b] -= 1
            if not count[b]:
                free.append(b)
    return taken < len(count)


def check(case, ctx):
    nodes, edges = case
    strangers = {x for e in edges for x in e} - set(nodes)

    def make():
        return Digraph(nodes=immutableset(nodes), edges=immutablesetmultidict(edges))

    def make_from_plain():
        return Digraph(nodes=list(nodes), edges=list(edges))

    if strangers:
        ctx.mark(label="strangers")
        raises(RuntimeError, make, "edges of nodes outside the graph")
        raises(RuntimeError, make_from_plain, "edges of nodes outside the graph")
        return
    require(make() == make_from_plain() or edges != list(dict.fromkeys(edges)), "a graph of plain lists differs")
    g = make()
    backwards = {}
    for a, b in edges:
        backwards.setdefault(b, set()).add(a)
    same({n: set(g.predecessors[n]) for n in nodes}, {n: backwards.get(n, set()) for n in nodes}, "predecessors")
    same(set(g.nodes), set(nodes), "nodes")
    same(set(g.edges.items()), set(edges), "edges")
    distinct = list(dict.fromkeys(nodes))
    deg = {n: len(backwards.get(n, ())) for n in distinct}
    same(dict(g.in_degree()), deg, "in-degrees")
    for n in distinct[:50]:
        same(g.in_degree()[n], deg[n], "in-degree of %r" % n)
    cyc = has_cycle(distinct, edges)
    ctx.label("cyclic" if cyc else "acyclic")
    ctx.mark(len(set(edges)) >= 2)
    if cyc:
        raises(ParameterInterpolationError, lambda: list(g.topological_sort()), "sorting a cyclic graph")
        return
    for _ in range(2):
        order = list(g.topological_sort())
        same(sorted(order, key=repr), sorted(distinct, key=repr), "the nodes of the order")
        pos = {n: i for i, n in enumerate(order)}
        for a, b in edges:
            require(pos[a] < pos[b], "%r comes after %r" % (a, b), order, edges)


@st.composite
def graphs(draw):
    n = draw(st.integers(0, 9))
    names = ["n%d" % i for i in range(n)]
    if draw(st.integers(0, 3)) == 0:
        # names like any others
        names = ["", " ", "0", "None", "n1", "N1", "n1 ", "\0", "\u00e9"][:n]
    elif draw(st.integers(0, 5)) == 0:
        # nodes which are no texts, some of which only look like others
        names = [1, "1", None, "None", (1,), "(1,)", 0, "0", ("1",)][:n]
    names = list(draw(st.permutations(names)))
    edges = []
    if n:
        # forward edges with respect to the drawn permutation, and sometimes any edge
        for _ in range(draw(st.integers(0, 16))):
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if i == j:
                continue
            edges.append((names[min(i, j)], names[max(i, j)]))
        kind = draw(st.integers(0, 4))
        if kind == 0:
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            edges.insert(draw(st.integers(0, len(edges))), (names[i], names[j]))
        elif kind == 1 and draw(st.booleans()):
            e = (draw(st.sampled_from([n for e in edges for n in e] or names)), "stranger")
            edges.insert(draw(st.integers(0, len(edges))), draw(st.sampled_from([e, e, e[::-1], ("stranger", "other"), ("", e[0]), (e[0], "")])))
    return (list(draw(st.permutations(names))), edges)


@st.composite
def large_graphs(draw):
    """Tens of nodes, with dotted names too; the seed decides the edges."""
    n = draw(st.integers(10, 80) | st.sampled_from([130, 300, 1100]))
    rnd = random.Random(draw(st.integers(0, 10 ** 6)))
    names = [rnd.choice(["%d", "n%d", "a.b%d", "a.b.c%d", "é%d", "x y%d"]) % i for i in range(n)]
    rnd.shuffle(names)
    shape = draw(st.sampled_from(["chain", "star", "fan-in", "layers", "sparse", "dense", "diamonds"]))
    pairs = []
    if shape == "chain":
        pairs = [(i, i + 1) for i in range(n - 1)]
    elif shape == "star":
        pairs = [(0, i) for i in range(1, n)]
    elif shape == "fan-in":
        pairs = [(i, n - 1) for i in range(n - 1)]
    elif shape == "layers":
        w = rnd.randrange(2, 6)
        pairs = [(i, j) for i in range(n) for j in range(i - i % w + w, min(n, i - i % w + 2 * w))]
    elif shape == "diamonds":
        for i in range(0, n - 3, 3):
            pairs += [(i, i + 1), (i, i + 2), (i + 1, i + 3), (i + 2, i + 3)]
    else:
        p = 1.5 / n if shape == "sparse" else 0.4 if n < 100 else 0.05 if n < 500 else 0.005
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n) if rnd.random() < p]
    if draw(st.integers(0, 2)) == 0 and pairs:
        # a cycle somewhere: an edge back along an edge or a path
        i, j = rnd.choice(pairs)
        pairs.append((j, i))
    rnd.shuffle(pairs)
    edges = [(names[i], names[j]) for i, j in pairs]
    rnd.shuffle(names)
    return (names, edges)


PROP = Prop("C30", [
    Sub("graph", graphs(), check, 4000, 40, "two or more different edges, or edges of strangers"),
    Sub("large", large_graphs(), check, 150, 30, "two or more different edges"),
])
