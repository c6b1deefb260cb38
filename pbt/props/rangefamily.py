"""Histories over several range sets at once, shared by C03, C04 and C05.

A case is (domain, ops): the ops make sets and builders, add ranges and whole sets to them, copy
and clear them, in any order. Each object has a model of its own; after every step all of them are
compared, so that state shared between two objects, or remembered for too long, shows.
"""
import copy
import pickle

from hypothesis import strategies as st

from core import raises, require, same
from props.rangegen import (
    DOMAINS,
    N,
    build,
    domains,
    m_add,
    m_connected,
    m_contains,
    m_encloses,
    m_inter,
    model,
    observe,
    spec_of,
    specs,
)
from vistautils.range import ImmutableRangeSet, MutableRangeSet, RangeSet


def value_queries(rs, domain, models, v, obs):
    f = DOMAINS[domain] if isinstance(domain, str) else domain

    def ob(r):
        return None if r is None else obs(r)

    containing = [m for m in models if m_contains(m, v)]
    same(f(v) in rs, bool(containing), "%r in %r" % (f(v), rs))
    same(ob(rs.range_containing(f(v))), containing[0] if containing else None, "range_containing(%r) of %r" % (f(v), rs))
    below = [m for m in models if m[0] <= 4 * v - 1]
    same(ob(rs.rightmost_containing_or_below(f(v))), below[-1] if below else None, "rightmost_containing_or_below(%r) of %r" % (f(v), rs))
    above = [m for m in models if m[1] >= 4 * v + 1]
    same(ob(rs.leftmost_containing_or_above(f(v))), above[0] if above else None, "leftmost_containing_or_above(%r) of %r" % (f(v), rs))


def range_queries(rs, domain, models, q, obs):
    qm = model(q)
    query = build(domain, q)
    enclosing = [m for m in models if m_encloses(m, qm)]
    same(rs.encloses(query), bool(enclosing), "%r encloses %r" % (rs, query))
    got = rs.range_enclosing_range(query)
    same(None if got is None else obs(got), enclosing[0] if enclosing else None, "range_enclosing_range(%r) of %r" % (query, rs))
    same({obs(r) for r in rs.ranges_enclosed_by(query)}, {m for m in models if m_encloses(qm, m)}, "ranges_enclosed_by(%r) of %r" % (query, rs))
    crossing = [m for m in models if m_connected(m, qm) and m_inter(m, qm)[0] < m_inter(m, qm)[1]]
    same(rs.intersects(query), bool(crossing), "%r intersects %r" % (rs, query))
    same({obs(r) for r in rs.ranges_overlapping(query)}, {m for m in models if m_connected(m, qm)}, "ranges_overlapping(%r) of %r" % (query, rs))
    same(rs.encloses_all([query]), bool(enclosing), "%r encloses_all %r" % (rs, [query]))


def check_family(case, ctx):
    domain, ops = case
    objs = []  # [kind, object, models]
    bridged = copies = 0

    def ob(r):
        return observe(r, domain, N)

    def pick(i, kinds):
        found = [o for o in objs if o[0] in kinds]
        return found[i % len(found)] if found else None

    def new(kind, x, models):
        objs.append([kind, x, models])

    new("m", RangeSet.create_mutable(), [])
    hashes = []
    for op in ops:
        name, i, j, arg = op
        if name == "mutable":
            new("m", RangeSet.create_mutable(), [])
        elif name == "builder":
            new("b", ImmutableRangeSet.builder(), [])
        elif name == "add":
            o = pick(i, "mb")
            added = m_add(o[2], model(arg))
            if added != o[2]:
                bridged += 1
            o[2] = added
            require(o[1].add(build(domain, arg)) is o[1], "add does not return the set or builder itself")
        elif name == "add_all":
            o, p = pick(i, "mb"), pick(j, "mi")
            if o is p and o[0] == "m":
                p = [None, o[1].immutable_copy(), o[2]]
            for m in p[2]:
                o[2] = m_add(o[2], m)
            given = p[1] if o[0] == "m" else p[1].as_ranges()
            require(o[1].add_all(given) is o[1], "add_all does not return the set or builder itself")
            ctx.label("add_all-empty" if not p[2] else "add_all-set")
        elif name == "clear":
            o = pick(i, "m")
            o[1].clear()
            o[2] = []
        elif name == "build":
            o = pick(i, "b")
            if o:
                new("i", o[1].build(), o[2])
                copies += 1
        elif name == "immutable_copy":
            o = pick(i, "mi")
            x = o[1].immutable_copy()
            require(isinstance(x, ImmutableRangeSet), "immutable_copy is not immutable", type(x))
            new("i", x, o[2])
            copies += 1
        elif name in ("copy", "deepcopy", "pickle"):
            o = pick(i, "mi")
            x = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda s: pickle.loads(pickle.dumps(s, j % 6))}[name](o[1])
            require(isinstance(x, MutableRangeSet) == (o[0] == "m"), "the %s is of another kind" % name, type(x))
            new(o[0], x, o[2])
            copies += 1
        elif name == "query":
            o = pick(i, "mi")
            range_queries(o[1], domain, o[2], arg, ob)
            value_queries(o[1], domain, o[2], j % N, ob)
        elif name == "hash":
            o = pick(i, "i")
            if o:
                hashes.append((o[1], hash(o[1])))
        else:
            raise AssertionError(name)
        for k, (kind, x, models) in enumerate(objs):
            if kind == "b":
                continue
            same([ob(r) for r in x.as_ranges()], list(models), "members of object %d after %r" % (k, op))
            same(len(x), len(models), "len of object %d after %r" % (k, op))
            same(x.is_empty(), not models, "is_empty of object %d after %r" % (k, op))
            if models:
                same(ob(x.span), (models[0][0], models[-1][1]), "span of object %d after %r" % (k, op))
            else:
                raises(ValueError, lambda: x.span, "span of the empty object %d" % k)
    sets = [o for o in objs if o[0] != "b"]
    for kind, x, models in sets:
        for m in models:
            range_queries(x, domain, models, spec_of(m), ob)
        for v in range(0, N, 3):
            value_queries(x, domain, models, v, ob)
    for _, x, mx in sets:
        for _, y, my in sets:
            same(x == y, mx == my, "%r == %r" % (x, y))
            same(x != y, mx != my, "%r != %r" % (x, y))
            if mx == my:
                same(hash(x), hash(y), "hash of equal sets %r" % x)
    for x, h in hashes:
        same(hash(x), h, "hash of an immutable set, later")
    ctx.mark(bridged >= 2 and copies >= 1)


def ops(weights, max_size=16):
    ix = st.sampled_from([0, 0, 0, 0, 1, 1, 2, 3, 4])
    narrow = specs(width=2, unbounded=False)
    some = narrow | narrow | specs(width=3, unbounded=False) | specs(width=6)
    table = {
        "mutable": st.tuples(st.just("mutable"), st.just(0), st.just(0), st.none()),
        "builder": st.tuples(st.just("builder"), st.just(0), st.just(0), st.none()),
        "add": st.tuples(st.just("add"), ix, st.just(0), some),
        "add_all": st.tuples(st.just("add_all"), ix, ix, st.none()),
        "clear": st.tuples(st.just("clear"), ix, st.just(0), st.none()),
        "build": st.tuples(st.just("build"), ix, st.just(0), st.none()),
        "immutable_copy": st.tuples(st.just("immutable_copy"), ix, st.just(0), st.none()),
        "copy": st.tuples(st.sampled_from(["copy", "deepcopy", "pickle"]), ix, ix, st.none()),
        "query": st.tuples(st.just("query"), ix, st.integers(0, N - 1), specs(width=5) | specs()),
        "hash": st.tuples(st.just("hash"), ix, st.just(0), st.none()),
    }
    one = st.one_of([table[k] for k, n in weights.items() for _ in range(n)])
    start = st.sampled_from([[], [1, 6, 11], [0, 4, 8, 12], [1, 3, 6, 9, 11]]).map(
        lambda at: [("add", 0, 0, ("closed", v, v)) for v in at]
    )
    return st.tuples(start, st.lists(one, min_size=4, max_size=max_size)).map(lambda t: t[0] + t[1])


def cases(**weights):
    return st.tuples(domains(), ops(weights))
