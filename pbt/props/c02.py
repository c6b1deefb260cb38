"""C02 Range algebra: encloses, connected, intersects, intersection, span."""
from hypothesis import strategies as st

from core import Prop, Sub, raises, require, same
from props.rangegen import (
    N,
    DOMAINS,
    build,
    domains,
    m_connected,
    m_contains,
    m_encloses,
    m_inter,
    m_span,
    model,
    observe,
    spec_of,
    specs,
)
from vistautils.range import Range


def is_model(r, domain, m, what):
    got = observe(r, domain, N)
    same(got, m, "%s gave %r" % (what, r))
    # equal to an independently built range
    same(r, build(domain, spec_of(m)), what)
    same(r.is_empty(), m[0] == m[1], "is_empty of " + what)


def check_pair(case, ctx):
    domain, s1, s2 = case
    m1, m2 = model(s1), model(s2)
    r1, r2 = build(domain, s1), build(domain, s2)
    conn = m_connected(m1, m2)
    ctx.label(
        "connected" if conn else "disconnected",
        "encloses" if m_encloses(m1, m2) else "no-enclosure",
        "empty-intersection" if conn and m_inter(m1, m2)[0] == m_inter(m1, m2)[1] else "other",
    )
    ctx.mark(m1 != m2)
    same(r1.encloses(r2), m_encloses(m1, m2), "%r encloses %r" % (r1, r2))
    same(r2.encloses(r1), m_encloses(m2, m1), "%r encloses %r" % (r2, r1))
    for x, y in ((r1, r2), (r2, r1)):
        same(x.is_connected(y), conn, "%r is_connected %r" % (x, y))
        same(x.intersects(y), conn, "%r intersects %r" % (x, y))
        is_model(x.span(y), domain, m_span(m1, m2), "span of %r and %r" % (x, y))
        is_model(
            Range.create_spanning([x, y]), domain, m_span(m1, m2), "create_spanning of %r and %r" % (x, y)
        )
        if conn:
            inter = x.intersection(y)
            is_model(inter, domain, m_inter(m1, m2), "intersection of %r and %r" % (x, y))
            for v in range(N):
                val = DOMAINS[domain](v)
                same(val in inter, val in x and val in y, "%r in intersection of %r and %r" % (val, x, y))
        else:
            raises(ValueError, lambda: x.intersection(y), "intersection of disconnected %r and %r" % (x, y))
    # operands are unchanged
    same(observe(r1, domain, N), m1, "operand after the operations")
    same(observe(r2, domain, N), m2, "operand after the operations")


def check_triple(case, ctx):
    domain, specs_ = case
    rs = [build(domain, s) for s in specs_]
    ms = [model(s) for s in specs_]
    a, b, c = rs[:3]
    same(a.span(b).span(c), a.span(b.span(c)), "span is associative on %r" % (rs[:3],))
    same(a.span(a), a, "span is idempotent")
    same(a.intersection(a), a, "intersection is idempotent")
    same(a.intersection(Range.all()), a, "all is the identity of intersection")
    same(Range.all().intersection(a), a, "all is the identity of intersection")
    # pairwise connected convex sets have a common part; otherwise only when each step is defined
    pairwise = (
        m_connected(ms[0], ms[1]) and m_connected(ms[1], ms[2]) and m_connected(ms[0], ms[2])
    )
    ctx.label("pairwise-connected" if pairwise else "not")
    ctx.mark(len(set(ms)) > 2)
    if pairwise:
        same(
            a.intersection(b).intersection(c),
            a.intersection(b.intersection(c)),
            "intersection is associative on %r" % (rs[:3],),
        )
    total = ms[0]
    for m in ms[1:]:
        total = m_span(total, m)
    is_model(Range.create_spanning(rs), domain, total, "create_spanning of %r" % (rs,))
    is_model(Range.create_spanning(tuple(rs)), domain, total, "create_spanning of %r" % (rs,))
    # transitivity and antisymmetry of encloses
    if a.encloses(b) and b.encloses(c):
        require(a.encloses(c), "encloses is not transitive", rs[:3])
    if a.encloses(b) and b.encloses(a):
        same(a, b, "mutually enclosing ranges")


def check_crowd(case, ctx):
    """The span of many ranges, the widest of them anywhere."""
    domain, specs_, times, wide, at = case
    specs_ = specs_ * times
    if wide is not None:
        specs_.insert(at % (len(specs_) + 1), wide)
    ctx.mark(len(specs_) > 10)
    rs = [build(domain, s) for s in specs_]
    total = model(specs_[0])
    for s in specs_[1:]:
        total = m_span(total, model(s))
    is_model(Range.create_spanning(rs), domain, total, "create_spanning of %d ranges" % len(rs))
    same(rs, [build(domain, s) for s in specs_], "the ranges afterwards")


def check_empty(case, ctx):
    ctx.mark()
    raises(ValueError, lambda: Range.create_spanning(case), "span of no ranges")


PROP = Prop(
    "C02",
    [
        Sub("pair", st.tuples(domains(), specs(), specs()) | st.tuples(domains(), specs(width=3), specs(width=3)), check_pair, 3000, 30, "two different ranges"),
        Sub("dense", st.tuples(domains(), specs(n=4), specs(n=4)), check_pair, 3000, 30, "two different ranges"),
        Sub(
            "many",
            st.tuples(domains(), st.lists(specs(), min_size=3, max_size=7)),
            check_triple,
            2500,
            30,
            "at least three different ranges",
        ),
        Sub("crowd", st.tuples(domains(), st.lists(specs(width=2, unbounded=False), min_size=1, max_size=9), st.sampled_from([1, 2, 7, 40]), st.none() | specs(), st.integers(0, 400)),
            check_crowd, 300, 20, "more than ten ranges"),
        Sub("none", st.sampled_from([[], ()]), check_empty, 2, 1, "all"),
    ],
    assumptions=["endpoint types are totally ordered by `<` consistently with `==` (no NaN)"],
)
