"""C03 RangeSet: any history of additions leaves exactly the coalesced union."""
from hypothesis import strategies as st

from core import Prop, Sub, raises, require, same
from props.rangelarge import THOUSANDS, check_large_union, check_thousands_union, large_cases
from props.rangegen import (
    DOMAINS,
    N,
    build,
    coalesce,
    domains,
    m_add,
    m_connected,
    m_contains,
    m_encloses,
    m_is_empty,
    m_span,
    model,
    observe,
    spec_of,
    specs,
)
from props.rangefamily import cases as family_cases, check_family
from vistautils.range import ImmutableRangeSet, Range, RangeSet


def compare(rs, models, domain, n, what, probe_points=True):
    same([observe(r, domain, n) for r in rs.as_ranges()], list(models), "ranges %s" % what)
    same(len(rs), len(models), "len %s" % what)
    same(rs.is_empty(), not models, "is_empty %s" % what)
    if models:
        same(
            observe(rs.span, domain, n),
            (models[0][0], models[-1][1]),
            "span %s" % what,
        )
    else:
        raises(ValueError, lambda: rs.span, "span of an empty set")
    if probe_points:
        f = DOMAINS[domain] if isinstance(domain, str) else domain
        for v in range(n):
            same(f(v) in rs, any(m_contains(m, v) for m in models), "%r in %r %s" % (f(v), rs, what))


def check_history(case, ctx):
    domain, ops = case
    rs = RangeSet.create_mutable()
    models = []
    merges = 0
    for op in ops:
        if op[0] == "add":
            new = m_add(models, model(op[1]))
            if len(new) < len(models) or (len(new) == len(models) and new != models):
                merges += 1
                ctx.label("bridges" if len(new) < len(models) else "extends")
            models = new
            ret = rs.add(build(domain, op[1]))
            require(ret is rs, "add does not return the set itself")
        elif op[0] == "add_all":
            for s in op[2]:
                models = m_add(models, model(s))
            rngs = [build(domain, s) for s in op[2]]
            if op[1] == "list":
                arg = rngs
            elif op[1] == "generator":
                arg = (r for r in rngs)
            elif op[1] == "mutable":
                arg = RangeSet.create_mutable()
                for r in rngs:
                    arg.add(r)
            else:
                arg = ImmutableRangeSet.builder().add_all(rngs).build()
            ret = rs.add_all(arg)
            require(ret is rs, "add_all does not return the set itself")
            ctx.label("add_all-" + op[1])
        else:
            ctx.label("clear" if models else "clear-empty")
            rs.clear()
            models = []
        compare(rs, models, domain, N, "after %r" % (op,), probe_points=False)
    compare(rs, models, domain, N, "at the end")
    # representation invariants: sorted, non-empty, pairwise disconnected
    out = list(rs.as_ranges())
    for x in out:
        require(not x.is_empty(), "an empty range is a member", out)
    for i, x in enumerate(out):
        for y in out[i + 1 :]:
            require(not x.is_connected(y), "connected members", x, y)
    ctx.mark(merges >= 2)


def check_builder(case, ctx):
    """Builder, add_all and one-by-one agree, in any order; further use of the builder is safe."""
    domain, ss, perm_key, later = case
    models = coalesce([model(s) for s in ss])
    ctx.mark(len(models) < len(ss) and len(models) > 1, "coalesced")
    b = ImmutableRangeSet.builder()
    for s in ss:
        require(b.add(build(domain, s)) is b, "builder.add does not return the builder")
    built = b.build()
    compare(built, models, domain, N, "of a builder")
    order = sorted(range(len(ss)), key=lambda i: (perm_key * (i + 3)) % 17)
    b2 = ImmutableRangeSet.builder()
    require(
        b2.add_all([build(domain, ss[i]) for i in order]) is b2, "builder.add_all does not return the builder"
    )
    built2 = b2.build()
    compare(built2, models, domain, N, "of a builder in another order")
    require(built == built2, "the order of additions matters", built, built2)
    m = RangeSet.create_mutable().add_all([build(domain, ss[i]) for i in reversed(order)])
    require(m == built, "mutable and immutable sets differ", m, built)
    # a built set is a snapshot
    b.add_all([build(domain, s) for s in later])
    again = b.build()
    compare(built, models, domain, N, "of the first build after more additions to the builder")
    compare(again, coalesce([model(s) for s in list(ss) + list(later)]), domain, N, "of the second build")
    # adding what is already enclosed is a no-op
    m.add_all(built).add_all(m.immutable_copy())
    compare(m, models, domain, N, "after adding itself")
    if models:
        for mm in models:
            m.add(build(domain, spec_of(mm)))
        compare(m, models, domain, N, "after re-adding each member")


WIDE = 400


def wide_domain(i):
    return i * 3 - 600


@st.composite
def wide_history(draw):
    width = draw(st.sampled_from([1, 2, 6, 30]))
    starts = draw(st.lists(st.integers(0, WIDE - 40), min_size=12, max_size=60, unique=True))
    kinds = draw(st.lists(st.sampled_from(["closed", "closed_open", "open_closed", "open"]), min_size=1, max_size=4))
    widths = draw(st.lists(st.integers(0, width), min_size=1, max_size=5))
    out = []
    for i, a in enumerate(starts):
        k = kinds[i % len(kinds)]
        w = widths[i % len(widths)]
        if k == "open" and w == 0:
            k = "closed"
        out.append((k, a, a + w))
    # finally a few long ones which swallow many
    for _ in range(draw(st.integers(0, 2))):
        a = draw(st.integers(0, WIDE - 1))
        b = draw(st.integers(0, WIDE - 1))
        out.append((draw(st.sampled_from(["closed", "closed_open"])), min(a, b), max(a, b)))
    return out


def obs_wide(r):
    from vistautils.range import BoundType

    lo = 4 * ((r.lower_endpoint + 600) // 3) + (1 if r.lower_bound_type is BoundType.open() else -1)
    hi = 4 * ((r.upper_endpoint + 600) // 3) + (1 if r.upper_bound_type is BoundType.closed() else -1)
    return (lo, hi)


def check_wide(case, ctx):
    rs = RangeSet.create_mutable()
    models = []
    biggest = 0
    for s in case:
        models = m_add(models, model(s))
        rs.add(build(wide_domain, s))
        biggest = max(biggest, len(models))
        same([obs_wide(r) for r in rs.as_ranges()], models, "ranges after adding %r" % (s,))
    ctx.label("members>=%d" % (biggest // 10 * 10))
    ctx.mark(biggest >= 8)
    same(len(rs), len(models), "len")
    for v in range(0, WIDE, 7):
        same(wide_domain(v) in rs, any(m_contains(m, v) for m in models), "%r in %r" % (wide_domain(v), rs))


_narrow = st.tuples(st.just("add"), specs(width=2, unbounded=False))
_all = st.tuples(
    st.just("add_all"),
    st.sampled_from(["list", "generator", "mutable", "immutable"]),
    st.lists(specs(width=2, unbounded=False), max_size=4).map(tuple),
)
_adds = st.lists(
    st.one_of(_narrow, _narrow, _narrow, _all, st.tuples(st.just("add"), specs(width=4))), max_size=14
)
# half of the histories have one clear, at any point
ops = st.one_of(_adds, st.tuples(_adds, _adds).map(lambda p: p[0] + [("clear",)] + p[1]))

PROP = Prop(
    "C03",
    [
        Sub("history", st.tuples(domains(), ops), check_history, 2000, 40,
            "at least two additions that merge with or bridge existing members"),
        Sub("bounded", st.tuples(domains(), st.lists(st.tuples(st.just("add"), specs(width=3, unbounded=False)), min_size=3, max_size=14)),
            check_history, 2500, 40, "at least two additions that merge with or bridge existing members"),
        Sub("builder", st.tuples(domains(), st.lists(specs(width=3, unbounded=False), max_size=9), st.integers(0, 16), st.lists(specs(), max_size=3)),
            check_builder, 2000, 40, "several members, some coalesced"),
        Sub("family", family_cases(mutable=2, builder=1, add=6, add_all=4, clear=1, build=2, immutable_copy=1), check_family, 1500, 40,
            "two additions which change a set, and a copy or a build"),
        Sub("large", large_cases(1300), check_large_union, 60, 20, "20 members or more"),
        Sub("thousands", THOUSANDS, check_thousands_union, 24, 12, "more than a thousand members"),
        Sub("wide", wide_history(), check_wide, 800, 40, "at some point eight or more members"),
    ],
    assumptions=["endpoint types are totally ordered by `<` consistently with `==` (no NaN)"],
)
