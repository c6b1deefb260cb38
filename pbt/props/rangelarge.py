"""Shared by C03-C06 and C08: many ranges at once (hundreds, sometimes more than a thousand).

A case is (number of ranges, seed, spread, domain); the ranges follow from it by a generator of
random numbers of its own, so that cases stay small, and a smaller number shrinks them.
"""
import bisect
import copy
import pickle
import random
from fractions import Fraction

from hypothesis import strategies as st

from core import raises, require, same
from props.rangegen import BOUNDED, OnlyLess, build, m_connected, m_contains, m_encloses, m_inter, m_span, model, spec_of
from vistautils.range import BoundType, ImmutableRangeSet, MutableRangeSet, Range, RangeSet, immutablerangemap

LARGE_DOMAINS = {
    "int": (lambda i: 3 * i - 1000, lambda v: (v + 1000) // 3),
    "str": (lambda i: "%06d" % i, int),
    "fraction": (lambda i: Fraction(i, 7), lambda v: int(v * 7)),
    "only_less": (OnlyLess, lambda v: v._n),
    "tuple": (lambda i: (i // 10, str(i % 10)), lambda v: v[0] * 10 + int(v[1])),
}


def large_cases(biggest=400):
    return st.tuples(
        st.integers(2, 60) | st.integers(60, biggest) | st.sampled_from([64, 100, 128, 256, biggest]),
        st.integers(0, 10 ** 6), st.sampled_from([1, 2, 3, 6, 20]), st.sampled_from(sorted(LARGE_DOMAINS)))


def observed(r, domain):
    index = LARGE_DOMAINS[domain][1]
    lo = hi = None
    if r.has_lower_bound():
        lo = 4 * index(r.lower_endpoint) + (1 if r.lower_bound_type is BoundType.open() else -1)
    if r.has_upper_bound():
        hi = 4 * index(r.upper_endpoint) + (1 if r.upper_bound_type is BoundType.closed() else -1)
    return (-10 ** 9 if lo is None else lo, 10 ** 9 if hi is None else hi)


def drawn_spec(rnd, width, spread):
    kind = rnd.choice(BOUNDED)
    a = rnd.randrange(width)
    b = a + rnd.randrange(spread + 1)
    return ("closed" if kind == "open" and a == b else kind, a, b)


def union(models):
    """The coalesced union, by sorting."""
    out = []
    for m in sorted(m for m in models if m[0] != m[1]):
        if out and m[0] <= out[-1][1]:
            out[-1] = m_span(out[-1], m)
        else:
            out.append(m)
    return out


def drawn_set(case):
    n, seed, spread, domain = case
    rnd = random.Random(seed)
    width = n * (spread + 2)
    ss = [drawn_spec(rnd, width, spread) for _ in range(n)]
    if rnd.random() < 0.3:
        ss.sort(key=lambda s: s[1], reverse=rnd.random() < 0.5)
    if rnd.random() < 0.25:
        # the first or the last is not bounded
        ss.insert(rnd.randrange(n + 1), (rnd.choice(["at_most", "less_than"]), 0, rnd.randrange(-5, 1 + rnd.choice([1, width // 3]))))
    if rnd.random() < 0.25:
        ss.insert(rnd.randrange(n + 1), (rnd.choice(["at_least", "greater_than"]), width - rnd.randrange(-5, 1 + rnd.choice([1, width // 3])), 0))
    return rnd, width, ss


def check_large_union(case, ctx):
    rnd, width, ss = drawn_set(case)
    n, domain = case[0], case[3]
    f = LARGE_DOMAINS[domain][0]
    rs = RangeSet.create_mutable()
    i = -1
    while i + 1 < len(ss):
        # one at a time, or many at once
        how = rnd.choice(["add", "list", "generator", "mutable", "immutable"])
        batch = ss[i + 1: i + 1 + rnd.choice([1, 12, 40, n])]
        i += len(batch)
        rngs = [build(f, s) for s in batch]
        if how == "add":
            for r in rngs:
                rs.add(r)
        elif how == "list":
            rs.add_all(rngs)
            same(rngs, [build(f, s) for s in batch], "the list of ranges added")
        elif how == "generator":
            rs.add_all(r for r in rngs)
        else:
            arg = RangeSet.create_mutable().add_all(rngs) if how == "mutable" else ImmutableRangeSet.builder().add_all(rngs).build()
            rs.add_all(arg)
            same([observed(r, domain) for r in arg.as_ranges()], union([model(t) for t in batch]), "the set which was added")
        if rnd.random() < 0.3 or i == len(ss) - 1:
            same([observed(r, domain) for r in rs.as_ranges()], union([model(t) for t in ss[: i + 1]]), "ranges after %d additions" % (i + 1))
    want = union([model(s) for s in ss])
    ctx.mark(len(want) >= 20)
    ctx.label("members>=%d" % (len(want) // 50 * 50))
    same(len(rs), len(want), "number of ranges")
    same(observed(rs.span, domain), m_span(want[0], want[-1]) if want else None, "span") if want else None
    other = ImmutableRangeSet.builder().add_all([build(f, s) for s in sorted(ss)]).build()
    require(rs == other and hash(rs) == hash(other), "the same ranges in another order make another set")
    # a long range swallows those below it
    a, b = sorted((rnd.randrange(width), rnd.randrange(width)))
    s = ("closed", a, b)
    rs.add(build(f, s))
    same([observed(r, domain) for r in rs.as_ranges()], union([model(t) for t in ss] + [model(s)]), "ranges after a long one was added")
    # a set as a whole
    more = [drawn_spec(rnd, width, case[2]) for _ in range(rnd.randrange(60))]
    rs.add_all(ImmutableRangeSet.builder().add_all([build(f, t) for t in more]).build())
    same([observed(r, domain) for r in rs.as_ranges()], union([model(t) for t in ss + [s] + more]), "ranges after a set was added")


def check_large_queries(case, ctx):
    rnd, width, ss = drawn_set(case)
    domain, spread = case[3], case[2]
    f = LARGE_DOMAINS[domain][0]
    models = union([model(s) for s in ss])
    if rnd.random() < 0.5:
        rs = ImmutableRangeSet.builder().add_all([build(f, s) for s in ss]).build()
    else:
        rs = RangeSet.create_mutable().add_all([build(f, s) for s in ss])
    ctx.mark(len(models) >= 20)
    ctx.label("members>=%d" % (len(models) // 50 * 50))
    ob = lambda r: None if r is None else observed(r, domain)  # noqa
    for _ in range(12):
        v = rnd.randrange(width + 10)
        x = f(v)
        containing = [m for m in models if m_contains(m, v)]
        same(x in rs, bool(containing), "%r in a large set" % (x,))
        same(ob(rs.range_containing(x)), containing[0] if containing else None, "range_containing(%r)" % (x,))
        below = [m for m in models if m[0] <= 4 * v - 1]
        same(ob(rs.rightmost_containing_or_below(x)), below[-1] if below else None, "rightmost_containing_or_below(%r)" % (x,))
        above = [m for m in models if m[1] >= 4 * v + 1]
        same(ob(rs.leftmost_containing_or_above(x)), above[0] if above else None, "leftmost_containing_or_above(%r)" % (x,))
        kind = rnd.randrange(4)
        if kind == 0:
            q = drawn_spec(rnd, width, spread)
        elif kind == 1:
            q = drawn_spec(rnd, width, width)
        elif kind == 2:
            q = spec_of(rnd.choice(models)) if models else ("all", 0, 0)
        else:
            q = rnd.choice([("all", 0, 0), ("at_most", 0, v), ("greater_than", v, 0), ("less_than", 0, v), ("at_least", v, 0)])
        qm, query = model(q), build(f, q)
        enclosing = [m for m in models if m_encloses(m, qm)]
        same(rs.encloses(query), bool(enclosing), "encloses(%r)" % (query,))
        same(ob(rs.range_enclosing_range(query)), enclosing[0] if enclosing else None, "range_enclosing_range(%r)" % (query,))
        got = [ob(r) for r in rs.ranges_enclosed_by(query)]
        same(sorted(got), [m for m in models if m_encloses(qm, m)], "ranges_enclosed_by(%r)" % (query,))
        got = [ob(r) for r in rs.ranges_overlapping(query)]
        same(sorted(got), [m for m in models if m_connected(m, qm)], "ranges_overlapping(%r)" % (query,))
        same(rs.intersects(query), any(m_connected(m, qm) and m_inter(m, qm)[0] < m_inter(m, qm)[1] for m in models), "intersects(%r)" % (query,))
    members = [build(f, spec_of(m)) for m in models]
    # sets of which each member lies in some member: many in one, or a few
    within = []
    for m in rnd.sample(models, min(len(models), rnd.choice([1, 2, 30]))):
        lo, hi = spec_of(m)[1:]
        within += [("closed", v, v) for v in range(lo + 1, hi)] or [spec_of(m)]
    for also in ([], [("closed", width + 50, width + 51)], [drawn_spec(rnd, width, spread)]):
        for make in (lambda rs: RangeSet.create_mutable().add_all(rs), lambda rs: ImmutableRangeSet.builder().add_all(rs).build()):
            other = make([build(f, s) for s in within + also])
            want = all(any(m_encloses(m, o) for m in models) for o in union([model(s) for s in within + also]))
            same(rs.encloses_all(other), want, "encloses_all of a set of %d members" % len(other))
    same(rs.encloses_all(members), True, "encloses_all of the members")
    if members and models[-1][1] < 10 ** 9:
        last = models[-1]
        beyond = build(f, ("closed", (last[1] + 1) // 4, width + 100))
        same(rs.encloses_all(members + [beyond]), False, "encloses_all with a range beyond the last")
    # any range among many which are enclosed, empty ones too
    for _ in range(6):
        kind = rnd.choice(["closed_open", "open_closed", "closed", "open"])
        a = rnd.randrange(width + 10)
        s = (kind, a, a + (0 if kind in ("closed_open", "open_closed") else rnd.randrange(1, 3)))
        among = [rnd.choice(members) for _ in range(rnd.choice([0, 1, 10, 50]))] if members else []
        among.insert(rnd.choice([0, len(among), rnd.randrange(len(among) + 1)]), build(f, s))
        want = any(m_encloses(m, model(s)) for m in models)
        same(rs.encloses_all(among), want, "encloses_all of %d ranges, one of them %r" % (len(among), build(f, s)))
        same(rs.encloses_all(r for r in among), want, "encloses_all of %d ranges, one of them %r" % (len(among), build(f, s)))


def check_large_copies(case, ctx):
    rnd, width, ss = drawn_set(case)
    domain = case[3]
    f = LARGE_DOMAINS[domain][0]
    models = union([model(s) for s in ss])
    ctx.mark(len(models) >= 20)
    rs = RangeSet.create_mutable().add_all([build(f, s) for s in ss])
    how = rnd.choice(["copy", "deepcopy", "immutable_copy", "pickle", "builder"])
    if how == "copy":
        c = copy.copy(rs)
    elif how == "deepcopy":
        c = copy.deepcopy(rs)
    elif how == "immutable_copy":
        c = rs.immutable_copy()
    elif how == "pickle":
        c = pickle.loads(pickle.dumps(rs, rnd.randrange(6)))
    else:
        shuffled = list(ss)
        rnd.shuffle(shuffled)
        c = ImmutableRangeSet.builder().add_all([build(f, s) for s in shuffled]).build()
    ctx.label(how)
    require(c == rs and rs == c and hash(c) == hash(rs), "the copy (%s) differs" % how)
    same([observed(r, domain) for r in c.as_ranges()], models, "members of the copy (%s)" % how)
    if isinstance(c, MutableRangeSet):
        same(type(c), type(rs), "type of the copy")
    # one member less, one member more, one bound moved: other sets
    if models:
        i = rnd.randrange(len(models))
        less = models[:i] + models[i + 1:]
        o = RangeSet.create_mutable().add_all([build(f, spec_of(m)) for m in less])
        require(not o == c and c != o, "a set without the member %d is equal" % i)
        lo, hi = models[i]
        if lo % 4 == 1:
            other = (lo - 2, hi)
            if i == 0 or models[i - 1][1] < lo - 2:
                o = RangeSet.create_mutable().add_all([build(f, spec_of(m)) for m in less + [other]])
                require(not o == c and c != o, "a set with another bound of the member %d is equal" % i)
    rs.add(build(f, ("closed", 0, width * 2)))
    same([observed(r, domain) for r in c.as_ranges()], models, "members of the copy (%s) after the original changed" % how)


def check_large_map(case, ctx):
    rnd, width, ss = drawn_set(case)
    domain = case[3]
    f = LARGE_DOMAINS[domain][0]
    models = union([model(s) for s in ss])
    if not models:
        return
    ctx.mark(len(models) >= 20)
    items = [(build(f, spec_of(m)), i % 7 or None) for i, m in enumerate(models)]
    shuffled = list(items)
    rnd.shuffle(shuffled)
    rm = immutablerangemap(shuffled)
    same(dict(rm.as_dict()), dict(items), "items of a large map")
    for _ in range(25):
        v = rnd.randrange(width + 10)
        x = f(v)
        i = [k for k, m in enumerate(models) if m_contains(m, v)]
        same(rm[x], items[i[0]][1] if i else None, "value of %r" % (x,))
        same(x in rm, bool(i), "%r in a large map" % (x,))
        below = [k for k, m in enumerate(models) if m[0] <= 4 * v - 1]
        same(rm.get_from_rightmost_containing_or_below(x), items[below[-1]][1] if below else None, "get_from_rightmost_containing_or_below(%r)" % (x,))
        above = [k for k, m in enumerate(models) if m[1] >= 4 * v + 1]
        same(rm.get_from_leftmost_containing_or_above(x), items[above[0]][1] if above else None, "get_from_leftmost_containing_or_above(%r)" % (x,))
        q = drawn_spec(rnd, width, rnd.choice([3, 20, width]))
        want = {items[k][1] for k, m in enumerate(models) if m_encloses(model(q), m)}
        same(set(rm.get_enclosed_by(build(f, q))), want, "get_enclosed_by(%r)" % (q,))
    # one key which touches or overlaps another is refused wherever it is
    k = rnd.randrange(len(models))
    lo, hi = models[k]
    clash = rnd.choice([(hi, hi + 4), (lo - 8, lo), (lo - 4, hi + 4), (hi - 2, hi + 2)])
    if max(-lo, hi) < 10 ** 9 and clash[0] >= -1 and clash[0] < clash[1] and clash != models[k]:
        shuffled.insert(rnd.randrange(len(shuffled) + 1), (build(f, spec_of(clash)), "clash"))
        raises(ValueError, lambda: immutablerangemap(shuffled), "a large map with a clash of %r and %r" % (models[k], clash))


THOUSANDS = st.tuples(st.sampled_from([1000, 1001, 1025, 2050, 3000, 4100, 5001, 8200]), st.integers(0, 10 ** 6), st.integers(0, 3))


def thousands(case):
    """Thousands of members, [6i, 6i + 2] but for some, in any order."""
    n, seed, gaps = case
    rnd = random.Random(seed)
    starts = [6 * i for i in range(n) if not gaps or rnd.randrange(20) >= gaps]
    shuffled = [Range.closed(s, s + 2) for s in starts]
    if gaps != 1:
        rnd.shuffle(shuffled)
    return rnd, starts, shuffled


def check_thousands_union(case, ctx):
    rnd, starts, shuffled = thousands(case)
    ctx.mark(len(starts) > 1000)
    rs = RangeSet.create_mutable()
    for r in shuffled:
        rs.add(r)
    b = ImmutableRangeSet.builder().add_all(shuffled)
    for what, s in (("a set", rs), ("a built set", b.build())):
        same([(r.lower_endpoint, r.upper_endpoint) for r in s.as_ranges()], [(x, x + 2) for x in starts], "members of " + what)
        same(len(s), len(starts), "number of members of " + what)
    # one range which covers very many of them
    lo, hi = sorted(rnd.sample(range(6 * case[0]), 2))
    if rnd.randrange(3) == 0:
        lo, hi = 1, 6 * case[0] - 7
    inside = [x for x in starts if x <= hi and x + 2 >= lo]
    rs.add(Range.closed(lo, hi))
    want = [(x, x + 2) for x in starts if x + 2 < lo] + [(min([lo] + inside[:1]), max([hi] + [x + 2 for x in inside[-1:]]))] + [(x, x + 2) for x in starts if x > hi]
    same([(r.lower_endpoint, r.upper_endpoint) for r in rs.as_ranges()], want, "members after [%d..%d] was added" % (lo, hi))
    rs.clear()
    require(rs.is_empty() and len(rs) == 0, "a set of thousands after it was cleared", len(rs))


def check_thousands_queries(case, ctx):
    rnd, starts, shuffled = thousands(case)
    ctx.mark(len(starts) > 1000)
    rs = RangeSet.create_mutable().add_all(shuffled)
    if case[1] % 2:
        rs = rs.immutable_copy()
    top = 6 * case[0]
    for lo, hi in [(-1, top), (0, starts[-1] + 2), (1, starts[-1] + 1)] + [tuple(sorted(rnd.sample(range(top), 2))) for _ in range(3)]:
        q = Range.closed(lo, hi)
        same([r.lower_endpoint for r in rs.ranges_overlapping(q)], [x for x in starts if x <= hi and x + 2 >= lo], "ranges_overlapping(%r)" % (q,))
        same([r.lower_endpoint for r in rs.ranges_enclosed_by(q)], [x for x in starts if lo <= x and x + 2 <= hi], "ranges_enclosed_by(%r)" % (q,))
    same(len(rs.ranges_overlapping(Range.all())), len(starts), "ranges_overlapping of all")
    same(len(rs.ranges_enclosed_by(Range.at_least(3))), len([x for x in starts if x >= 3]), "ranges_enclosed_by of [3..")
    require(rs.encloses_all(shuffled) and rs.encloses_all(rs), "a set encloses its members")
    require(not rs.encloses_all(shuffled + [Range.closed(0, 3)]), "a set encloses what is beyond its members")
    for _ in range(20):
        x = rnd.randrange(-2, top + 3)
        i = bisect.bisect_right(starts, x) - 1
        inside = i >= 0 and x <= starts[i] + 2
        same(x in rs, inside, "%d in a set of thousands" % x)
        r = rs.range_containing(x)
        same(r.lower_endpoint if r else None, starts[i] if inside else None, "range_containing(%d)" % x)
        r = rs.rightmost_containing_or_below(x)
        same(r.lower_endpoint if r else None, starts[i] if i >= 0 else None, "rightmost_containing_or_below(%d)" % x)
        r = rs.leftmost_containing_or_above(x)
        above = starts[i] if inside else starts[i + 1] if i + 1 < len(starts) else None
        same(r.lower_endpoint if r else None, above, "leftmost_containing_or_above(%d)" % x)
    same((rs.span.lower_endpoint, rs.span.upper_endpoint), (starts[0], starts[-1] + 2), "span")


def check_thousands_values(case, ctx):
    rnd, starts, shuffled = thousands(case)
    ctx.mark(len(starts) > 1000)
    rs = RangeSet.create_mutable().add_all(shuffled)
    other = RangeSet.create_mutable().add_all(reversed(shuffled))
    copied = rs.immutable_copy()
    require(rs == other and rs == copied and copied == rs and hash(rs) == hash(other) == hash(copied), "equal sets of thousands")
    same(len(pickle.loads(pickle.dumps(rs, rnd.choice([0, 2, 4])))), len(starts), "size of a pickled set")
    require(pickle.loads(pickle.dumps(copied)) == rs and copy.deepcopy(rs) == rs, "a copy of a set of thousands")
    # one member which is another
    i = rnd.randrange(len(starts))
    near = RangeSet.create_mutable().add_all(r for r in shuffled if r.lower_endpoint != starts[i]).add(Range.closed(starts[i], starts[i] + 1))
    require(near != rs and rs != near and copied != near, "sets which differ in member %d of %d" % (i, len(starts)))
    rs.add(Range.closed(starts[i], starts[i] + 3))
    same([r.upper_endpoint for r in copied.as_ranges()], [x + 2 for x in starts], "a copy after its origin was changed")
    require(rs != copied, "a set which was changed, and its copy")
    m = immutablerangemap([(r, r.lower_endpoint) for r in shuffled])
    n = immutablerangemap([(r, r.lower_endpoint) for r in reversed(shuffled)])
    require(m == n and hash(m) == hash(n), "equal maps of thousands")
    require(pickle.loads(pickle.dumps(m)) == m, "a copy of a map of thousands")
    require(m != immutablerangemap([(r, r.lower_endpoint + (r.lower_endpoint == starts[i])) for r in shuffled]), "maps which differ in a value")


def check_thousands_map(case, ctx):
    rnd, starts, shuffled = thousands(case)
    ctx.mark(len(starts) > 1000)
    m = immutablerangemap([(r, r.lower_endpoint % 7) for r in shuffled] if case[1] % 2 else {r: r.lower_endpoint % 7 for r in shuffled})
    require(len(m.as_dict()) == len(starts), "size of a map of thousands", len(m.as_dict()))
    for _ in range(20):
        x = rnd.randrange(-2, 6 * case[0] + 3)
        i = bisect.bisect_right(starts, x) - 1
        inside = i >= 0 and x <= starts[i] + 2
        same(m[x], starts[i] % 7 if inside else None, "value of %d" % x)
        same(x in m, inside, "%d in a map of thousands" % x)
        same(m.get_from_rightmost_containing_or_below(x), starts[i] % 7 if i >= 0 else None, "get_from_rightmost_containing_or_below(%d)" % x)
        above = starts[i] if inside else starts[i + 1] if i + 1 < len(starts) else None
        same(m.get_from_leftmost_containing_or_above(x), above % 7 if above is not None else None, "get_from_leftmost_containing_or_above(%d)" % x)
    distinct = immutablerangemap([(r, r.lower_endpoint) for r in shuffled])
    for lo, hi in [(-1, 6 * case[0]), tuple(sorted(rnd.sample(range(6 * case[0]), 2)))]:
        same(sorted(distinct.get_enclosed_by(Range.closed(lo, hi))), [x for x in starts if lo <= x and x + 2 <= hi], "get_enclosed_by of [%d..%d]" % (lo, hi))
    x = rnd.choice(starts)
    for clash in (Range.closed(x - 1, x + 1), Range.closed(x + 1, x + 1), Range.closed(0, 6 * case[0]), Range.open_closed(x + 2, x + 3)):
        pairs = [(r, 0) for r in shuffled]
        pairs.insert(rnd.choice([0, len(pairs), rnd.randrange(len(pairs))]), (clash, "clash"))
        raises(ValueError, lambda: immutablerangemap(pairs), "a map of thousands in which %r clashes" % (clash,))
