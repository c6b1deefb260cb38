"""C04 RangeSet queries agree with a scan over the members."""
from hypothesis import strategies as st

from core import Prop, Sub, require, same
from props.rangefamily import cases as family_cases, check_family
from props.rangelarge import THOUSANDS, check_large_queries, check_thousands_queries, large_cases
from props.rangegen import (
    DOMAINS,
    N,
    build,
    coalesce,
    domains,
    m_connected,
    m_contains,
    m_encloses,
    m_inter,
    model,
    observe,
    spec_of,
    specs,
)
from vistautils.range import ImmutableRangeSet, Range, RangeSet


def make(domain, ss, how):
    if how == "mutable":
        return RangeSet.create_mutable().add_all([build(domain, s) for s in ss])
    if how == "copy":
        return RangeSet.create_mutable().add_all([build(domain, s) for s in ss]).immutable_copy()
    return ImmutableRangeSet.builder().add_all([build(domain, s) for s in ss]).build()


def ob(r, domain, n):
    return None if r is None else observe(r, domain, n)


def check_values(case, ctx):
    domain, ss, how = case
    models = coalesce([model(s) for s in ss])
    rs = make(domain, ss, how)
    ctx.mark(len(models) >= 2, "members>=2")
    ctx.label("members=%d" % min(len(models), 5))
    f = DOMAINS[domain]
    for v in range(N):
        containing = [m for m in models if m_contains(m, v)]
        same(f(v) in rs, bool(containing), "%r in %r" % (f(v), rs))
        same(
            ob(rs.range_containing(f(v)), domain, N),
            containing[0] if containing else None,
            "range_containing(%r) of %r" % (f(v), rs),
        )
        below = [m for m in models if m[0] <= 4 * v - 1]
        want = below[-1] if below else None
        same(
            ob(rs.rightmost_containing_or_below(f(v)), domain, N),
            want,
            "rightmost_containing_or_below(%r) of %r" % (f(v), rs),
        )
        same(
            ob(rs.maximal_containing_or_below(f(v)), domain, N),
            want,
            "maximal_containing_or_below(%r) of %r" % (f(v), rs),
        )
        above = [m for m in models if m[1] >= 4 * v + 1]
        want = above[0] if above else None
        same(
            ob(rs.leftmost_containing_or_above(f(v)), domain, N),
            want,
            "leftmost_containing_or_above(%r) of %r" % (f(v), rs),
        )
        same(
            ob(rs.minimal_containing_or_above(f(v)), domain, N),
            want,
            "minimal_containing_or_above(%r) of %r" % (f(v), rs),
        )
    # queries change nothing
    same([observe(r, domain, N) for r in rs.as_ranges()], models, "members after the queries")


def _query(rs, domain, models, q, n, ctx, obs):
    qm = model(q)
    query = build(domain, q)
    enclosing = [m for m in models if m_encloses(m, qm)]
    same(rs.encloses(query), bool(enclosing), "%r encloses %r" % (rs, query))
    got = rs.range_enclosing_range(query)
    same(
        None if got is None else obs(got),
        enclosing[0] if enclosing else None,
        "range_enclosing_range(%r) of %r" % (query, rs),
    )
    enclosed = [m for m in models if m_encloses(qm, m)]
    got = [obs(r) for r in rs.ranges_enclosed_by(query)]
    same(len(got), len(set(got)), "duplicates in ranges_enclosed_by")
    same(set(got), set(enclosed), "ranges_enclosed_by(%r) of %r" % (query, rs))
    crossing = [
        m for m in models if m_connected(m, qm) and m_inter(m, qm)[0] < m_inter(m, qm)[1]
    ]
    same(rs.intersects(query), bool(crossing), "%r intersects %r" % (rs, query))
    overlapping = [m for m in models if m_connected(m, qm)]
    got = [obs(r) for r in rs.ranges_overlapping(query)]
    same(len(got), len(set(got)), "duplicates in ranges_overlapping")
    same(set(got), set(overlapping), "ranges_overlapping(%r) of %r" % (query, rs))
    if len(overlapping) > 1:
        ctx.label("overlaps-several")
    if overlapping and not crossing:
        ctx.label("touches-only")
    if len(enclosed) > 1:
        ctx.label("encloses-several")


def check_ranges(case, ctx):
    domain, ss, how, queries = case
    models = coalesce([model(s) for s in ss])
    rs = make(domain, ss, how)
    ctx.mark(len(models) >= 2, "members>=2")
    ctx.label("members=%d" % min(len(models), 5))
    for q in queries:
        _query(rs, domain, models, q, N, ctx, lambda r: observe(r, domain, N))
    # the members themselves and their neighbourhood
    for m in models:
        _query(rs, domain, models, spec_of(m), N, ctx, lambda r: observe(r, domain, N))
    qs = [build(domain, q) for q in queries]
    want = all(any(m_encloses(m, model(q)) for m in models) for q in queries)
    same(rs.encloses_all(qs), want, "%r encloses_all %r" % (rs, qs))
    same(rs.encloses_all(iter(qs)), want, "%r encloses_all %r" % (rs, qs))
    ctx.label("encloses_all-%s" % want)
    other = make(domain, queries, how)
    om = coalesce([model(q) for q in queries])
    want = all(any(m_encloses(m, o) for m in models) for o in om)
    same(rs.encloses_all(other), want, "%r encloses_all of set %r" % (rs, other))
    # a set of the single values within the members, which may well have more members
    om = [model(("closed", v, v)) for v in range(N) if any(m_encloses(m, model(("closed", v, v))) for m in models)]
    points = make(domain, [spec_of(o) for o in om], how)
    same(rs.encloses_all(points), True, "%r encloses_all of the points within, %r" % (rs, points))
    same(points.encloses_all(rs), all(m in om for m in models), "%r encloses_all of %r" % (points, rs))
    require(rs.encloses_all(rs), "a set does not enclose itself")
    same(rs.encloses_all([]), True, "encloses_all of nothing")


WIDE = 240


def wide_domain(i):
    return i * 2 - 100


def wide_obs(r):
    from vistautils.range import BoundType

    lo = hi = None
    lo = 4 * ((r.lower_endpoint + 100) // 2) + (1 if r.lower_bound_type is BoundType.open() else -1)
    hi = 4 * ((r.upper_endpoint + 100) // 2) + (1 if r.upper_bound_type is BoundType.closed() else -1)
    return (lo, hi)


def check_wide(case, ctx):
    ss, queries = case
    models = coalesce([model(s) for s in ss])
    rs = make(wide_domain, ss, "immutable")
    ctx.mark(len(models) >= 8)
    ctx.label("members>=%d" % (len(models) // 10 * 10))
    for q in queries:
        _query(rs, wide_domain, models, q, WIDE, ctx, wide_obs)
        v = q[1]
        containing = [m for m in models if m_contains(m, v)]
        got = rs.range_containing(wide_domain(v))
        same(None if got is None else wide_obs(got), containing[0] if containing else None, "range_containing")
        below = [m for m in models if m[0] <= 4 * v - 1]
        got = rs.rightmost_containing_or_below(wide_domain(v))
        same(None if got is None else wide_obs(got), below[-1] if below else None, "rightmost")
        above = [m for m in models if m[1] >= 4 * v + 1]
        got = rs.leftmost_containing_or_above(wide_domain(v))
        same(None if got is None else wide_obs(got), above[0] if above else None, "leftmost")


sets = st.one_of(
    st.lists(specs(width=2, unbounded=False), max_size=8),
    st.lists(specs(width=1), min_size=2, max_size=8),
)
hows = st.sampled_from(["mutable", "immutable", "copy"])

PROP = Prop(
    "C04",
    [
        Sub("large", large_cases(700), check_large_queries, 60, 20, "20 members or more"),
        Sub("thousands", THOUSANDS, check_thousands_queries, 24, 12, "more than a thousand members"),
        Sub("values", st.tuples(domains(), sets, hows), check_values, 1200, 40, "at least two members"),
        Sub("interleaved", family_cases(add=6, query=6, add_all=1, clear=1, immutable_copy=1, copy=1), check_family, 1500, 40,
            "two additions which change a set, and a copy"),
        Sub(
            "ranges",
            st.tuples(domains(), sets, hows, st.lists(specs() | specs(width=3), min_size=1, max_size=6)),
            check_ranges,
            2000,
            40,
            "at least two members",
        ),
        Sub(
            "wide",
            st.tuples(
                st.lists(specs(n=WIDE, width=3, unbounded=False), min_size=12, max_size=40),
                st.lists(specs(n=WIDE) | specs(n=WIDE, width=10), min_size=4, max_size=12),
            ),
            check_wide,
            300,
            40,
            "at least eight members",
        ),
    ],
    assumptions=["endpoint types are totally ordered by `<` consistently with `==` (no NaN)"],
)
