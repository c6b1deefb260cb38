"""C06 RangeMap lookups; overlapping, connected and empty keys are refused."""
from hypothesis import strategies as st

import core
from core import Prop, Sub, raises, require
from props.rangelarge import THOUSANDS, check_large_map, check_thousands_map, large_cases
from props.rangegen import (
    DOMAINS,
    N,
    build,
    coalesce,
    domains,
    m_connected,
    m_contains,
    m_encloses,
    m_is_empty,
    model,
    observe,
    specs,
)
from vistautils.range import ImmutableRangeMap, Range, immutablerangemap

class Itself:
    """Equals nothing, not even itself."""

    def __eq__(self, other):
        return False

    __hash__ = object.__hash__


ODD = Itself()
VALUES = [0, 1, 2, ODD, float("nan"), "", "a", None, False, True, 1.0, (), ("x", 1), 0.5]


def same(got, want, what):  # pylint: disable=function-redefined
    if got is not want:
        core.same(got, want, what)


def same_value(got, want, what):
    """Equal is not enough: 1, True and 1.0 are values of their own."""
    same(got, want, what)
    require(type(got) is type(want), "type of " + what, got, want)


def builders(items):
    yield "factory-list", lambda: immutablerangemap(list(items))
    yield "factory-generator", lambda: immutablerangemap(x for x in items)
    yield "factory-dict", lambda: immutablerangemap(dict(items))

    def b():
        builder = ImmutableRangeMap.builder()
        for k, v in items:
            require(builder.put(k, v) is builder, "put does not return the builder")
        return builder.build()

    yield "builder", b


def check(case, ctx):
    domain, pairs, queries = case
    # one entry per distinct key
    uniq = {}
    for s, v in pairs:
        uniq[model(s)] = (s, v)
    ms = list(uniq)
    legal = not any(m_is_empty(m) for m in ms) and not any(
        m_connected(a, b) for i, a in enumerate(ms) for b in ms[:i]
    )
    items = [(build(domain, s), v) for s, v in uniq.values()]
    if not legal:
        ctx.mark(label="illegal-empty" if any(m_is_empty(m) for m in ms) else "illegal-connected")
        for how, make in builders(items):
            raises(ValueError, make, "%s with connected, overlapping or empty keys %r" % (how, items))
        return
    ctx.mark(len(ms) >= 2, "legal>=2")
    ctx.label("legal")
    table = sorted((m, v) for m, (_, v) in ((m, (None, i)) for i, m in enumerate(ms)))
    value_of = {m: uniq[m][1] for m in ms}
    f = DOMAINS[domain]
    previous = None
    for how, make in builders(items):
        rm = make()
        same(rm.is_empty(), not ms, "is_empty")
        same(dict(rm.as_dict()), dict(items), "as_dict of %s" % how)
        if previous is not None:
            require(previous == rm and hash(previous) == hash(rm), "two ways to build differ")
        previous = rm
    order = [m for m, _ in table]
    for v in range(N):
        x = f(v)
        containing = [m for m in order if m_contains(m, v)]
        same(x in rm, bool(containing), "%r in %r" % (x, rm))
        want = value_of[containing[0]] if containing else None
        got = rm[x]
        same_value(got, want, "%r[%r]" % (rm, x))
        below = [m for m in order if m[0] <= 4 * v - 1]
        want = value_of[below[-1]] if below else None
        same_value(rm.get_from_rightmost_containing_or_below(x), want, "rightmost_containing_or_below(%r) of %r" % (x, rm))
        same_value(rm.get_from_maximal_containing_or_below(x), want, "maximal_containing_or_below(%r) of %r" % (x, rm))
        above = [m for m in order if m[1] >= 4 * v + 1]
        want = value_of[above[0]] if above else None
        same_value(rm.get_from_leftmost_containing_or_above(x), want, "leftmost_containing_or_above(%r) of %r" % (x, rm))
        same_value(rm.get_from_minimal_containing_or_above(x), want, "minimal_containing_or_above(%r) of %r" % (x, rm))
    for q in queries:
        qm = model(q)
        got = list(rm.get_enclosed_by(build(domain, q)))
        want = [value_of[m] for m in order if m_encloses(qm, m)]
        if len(want) > 1:
            ctx.label("encloses-several")
        same(set(got), set(want), "get_enclosed_by(%r) of %r" % (build(domain, q), rm))
        same(len(got), len(set(want)), "duplicates in get_enclosed_by")


@st.composite
def cases(draw):
    domain = draw(domains())
    queries = draw(st.lists(specs(), min_size=1, max_size=5))
    values = st.sampled_from(VALUES)
    if draw(st.integers(0, 3)) == 0:
        pairs = draw(st.lists(st.tuples(specs(width=2), values), max_size=4))
        return (domain, pairs, queries)
    # legal by construction: cut points with gaps
    cuts = sorted(draw(st.sets(st.integers(-1, 2 * N), max_size=10)))
    pairs = []
    # cut c: odd -> above value c//2, even -> below value c//2
    i = 0
    while i + 1 < len(cuts):
        lo, hi = cuts[i], cuts[i + 1]
        i += 2
        lo_v, lo_open = lo // 2, lo % 2 == 1
        hi_v, hi_closed = hi // 2, hi % 2 == 1
        if lo < 0:
            if hi_v >= N:
                continue
            s = ("at_most" if hi_closed else "less_than", 0, hi_v)
        elif hi >= 2 * N:
            s = ("greater_than" if lo_open else "at_least", lo_v, 0)
        else:
            kind = {(True, True): "open_closed", (True, False): "open", (False, True): "closed", (False, False): "closed_open"}[
                (lo_open, hi_closed)
            ]
            s = (kind, lo_v, hi_v)
        pairs.append((s, draw(values)))
    pairs = draw(st.permutations(pairs))
    return (domain, list(pairs), queries)


def check_builder_again(case, ctx):
    """A builder used again after it has built a map."""
    domain, rounds = case
    builder = ImmutableRangeMap.builder()
    given, built = {}, []
    broken = False
    for pairs in rounds:
        for s, v in pairs:
            if model(s) in given:
                continue
            given[model(s)] = (s, v)
            builder.put(build(domain, s), v)
        ms = list(given)
        broken = any(m_is_empty(m) for m in ms) or any(m_connected(a, b) for i, a in enumerate(ms) for b in ms[:i])
        if broken:
            raises(ValueError, builder.build, "building a map with connected or empty keys")
        else:
            built.append((builder.build(), dict(given)))
    ctx.mark(len(built) >= 2 and built[0][1] != built[-1][1])
    f = DOMAINS[domain]
    for rm, want in built:
        same(dict(rm.as_dict()), {build(domain, s): v for s, v in want.values()}, "as_dict of one of several maps from a builder")
        for v in range(N):
            found = [x for m, (_, x) in want.items() if m_contains(m, v)]
            same(rm[f(v)], found[0] if found else None, "%r[%r]" % (rm, f(v)))


def check_near(case, ctx):
    """Two neighbours whose cuts touch or nearly touch."""
    domain, k1, k2, a, b, c, d = case
    a, b, c, d = sorted((a, b, c, d))
    s1, s2 = (k1, a, b), (k2, c, d)
    if k1 == "open" and a == b or k2 == "open" and c == d:
        return
    check((domain, [(s1, 1), (s2, 2)], [s1, s2, ("closed", a, d)]), ctx)


kinds = st.sampled_from(["open", "closed", "closed_open", "open_closed"])
ix = st.integers(0, N - 1)

PROP = Prop(
    "C06",
    [
        Sub("large", large_cases(400), check_large_map, 60, 20, "20 keys or more"),
        Sub("thousands", THOUSANDS, check_thousands_map, 24, 12, "more than a thousand members"),
        Sub("maps", cases(), check, 1500, 40, "two or more keys, or keys which must be refused"),
        Sub("builder again",
            st.tuples(domains(), st.lists(st.lists(st.tuples(specs(width=1), st.integers(0, 2)), max_size=3), min_size=2, max_size=3)),
            check_builder_again, 800, 40, "two different maps from one builder"),
        Sub("neighbours", st.tuples(domains(), kinds, kinds, ix, ix, ix, ix) | st.tuples(domains(), kinds, kinds, *[st.integers(0, 3)] * 4),
            check_near, 1500, 40, "two legal keys, or keys which must be refused"),
    ],
    assumptions=[
        "endpoint types are totally ordered by `<` consistently with `==` (no NaN)",
        "no key is given twice",
    ],
)
