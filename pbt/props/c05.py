"""C05 Range sets and maps are values: equality, hash, snapshots, pickling, copying."""
import copy
import pickle

from hypothesis import strategies as st

from core import Prop, Sub, raises, require, same
from props.rangefamily import cases as family_cases, check_family
from props.rangelarge import THOUSANDS, check_large_copies, check_thousands_values, large_cases
from props.rangegen import N, build, coalesce, domains, m_add, model, observe, spec_of, specs
from vistautils.range import ImmutableRangeSet, MutableRangeSet, Range, RangeMap, RangeSet, immutablerangemap


def members(rs, domain):
    return [observe(r, domain, N) for r in rs.as_ranges()]


def check_equality(case, ctx):
    domain, s1, s2, k1, k2 = case
    m1, m2 = coalesce([model(s) for s in s1]), coalesce([model(s) for s in s2])

    def mk(ss, k):
        rngs = [build(domain, s) for s in ss]
        if k:
            return RangeSet.create_mutable().add_all(rngs)
        return ImmutableRangeSet.builder().add_all(reversed(rngs)).build()

    a, b = mk(s1, k1), mk(s2, k2)
    eq = m1 == m2
    ctx.label("equal" if eq else "different", "kinds-%s" % (k1 == k2))
    ctx.mark(bool(m1) and bool(m2))
    same(a == b, eq, "%r == %r" % (a, b))
    same(b == a, eq, "%r == %r" % (b, a))
    same(a != b, not eq, "%r != %r" % (a, b))
    require(a == a, "a set differs from itself")
    same(hash(a), hash(a), "two calls of hash")
    if eq:
        same(hash(a), hash(b), "hash of equal sets %r" % a)
    same(len({a, b}), 1 if eq else 2, "set of the two")
    require(not (a == "x") and a != 3 and not (a == None), "equal to something else")  # noqa
    if m1:
        require(a != list(a.as_ranges()), "a set equals a list")


def check_snapshots(case, ctx):
    """Immutable copies, pickles and copies are unaffected by later changes, and the reverse."""
    domain, before, after, how, clear = case
    rs = RangeSet.create_mutable().add_all([build(domain, s) for s in before])
    m0 = coalesce([model(s) for s in before])
    m1 = coalesce([model(s) for s in before + after])
    ctx.mark(m0 != m1 and bool(m0), "changed-later")
    ctx.label(how)
    if how == "immutable_copy":
        snap = rs.immutable_copy()
        require(isinstance(snap, ImmutableRangeSet), "immutable_copy is not immutable")
        for name in ("add", "add_all", "clear", "remove"):
            require(not hasattr(snap, name), "an immutable range set has a method " + name)
    elif how == "copy":
        snap = copy.copy(rs)
    elif how == "deepcopy":
        snap = copy.deepcopy(rs)
    else:
        snap = pickle.loads(pickle.dumps(rs, int(how)))
    if how != "immutable_copy":
        require(isinstance(snap, MutableRangeSet), "a copy of a mutable set is not mutable")
    same(members(snap, domain), m0, "members of the copy")
    require(snap == rs and hash(snap) == hash(rs), "copy and original differ")
    if clear:
        rs.clear()
    rs.add_all([build(domain, s) for s in after])
    want = coalesce([model(s) for s in after]) if clear else m1
    same(members(rs, domain), want, "members of the original after the change")
    same(members(snap, domain), m0, "members of the copy after changing the original")
    same(snap.is_empty(), not m0, "is_empty of the copy")
    same(len(snap), len(m0), "len of the copy")
    if how != "immutable_copy":
        snap.add_all([build(domain, s) for s in after])
        same(members(snap, domain), m1, "members of the copy after changing the copy")
        snap.clear()
        same(members(rs, domain), want, "members of the original after clearing the copy")


def check_immutable_copies(case, ctx):
    domain, ss, how = case
    models = coalesce([model(s) for s in ss])
    rs = ImmutableRangeSet.builder().add_all([build(domain, s) for s in ss]).build()
    ctx.label(how, "empty" if not models else "non-empty")
    ctx.mark(len(models) != 1)
    if how == "copy":
        c = copy.copy(rs)
    elif how == "deepcopy":
        c = copy.deepcopy(rs)
    elif how == "immutable_copy":
        c = rs.immutable_copy()
    else:
        c = pickle.loads(pickle.dumps(rs, int(how)))
    require(isinstance(c, ImmutableRangeSet), "the copy is not immutable", type(c))
    require(c == rs and rs == c, "the copy (%s) differs" % how, c, rs)
    same(hash(c), hash(rs), "hash of the copy")
    same(members(c, domain), models, "members of the copy")
    if models:
        q = build(domain, spec_of(models[-1]))
        require(c.encloses(q), "the copy does not enclose its member", c, q)


class OwnMap(RangeMap):
    """Which has only what the base class gives it."""

    def __init__(self, inner):
        self.inner = inner

    def as_dict(self):
        return self.inner.as_dict()

    def __contains__(self, key):
        return key in self.inner

    def get_enclosed_by(self, rng):
        return self.inner.get_enclosed_by(rng)

    def get_from_rightmost_containing_or_below(self, key):
        return self.inner.get_from_rightmost_containing_or_below(key)

    def get_from_leftmost_containing_or_above(self, key):
        return self.inner.get_from_leftmost_containing_or_above(key)

    def is_empty(self):
        return self.inner.is_empty()


def check_map_copies(case, ctx):
    domain, ss, values, how = case
    models = coalesce([model(s) for s in ss])
    items = [(build(domain, spec_of(m)), values[i % len(values)]) for i, m in enumerate(models)]
    rm = immutablerangemap(items)
    rev = immutablerangemap(reversed(items))
    ctx.mark(len(items) >= 2)
    ctx.label(how)
    require(rm == rev and not (rm != rev), "the order of the items matters", rm, rev)
    same(hash(rm), hash(rev), "hash of equal range maps")
    if how == "copy":
        c = copy.copy(rm)
    elif how == "deepcopy":
        c = copy.deepcopy(rm)
    else:
        c = pickle.loads(pickle.dumps(rm, int(how)))
    require(c == rm and rm == c, "the copy (%s) differs" % how, c, rm)
    same(hash(c), hash(rm), "hash of the copy")
    same(dict(c.as_dict()), dict(items), "items of the copy")
    if how == "deepcopy":
        c2 = copy.deepcopy(rev)
    else:
        c2 = copy.copy(rev) if how == "copy" else pickle.loads(pickle.dumps(rev, int(how)))
    same(list(c2.as_dict().items()), list(rev.as_dict().items()), "items of the copy, in order")
    same(list(c.as_dict().items()), list(rm.as_dict().items()), "items of the copy, in order")
    same(type(c), type(rm), "type of the copy")
    if items:
        other = immutablerangemap([(items[0][0], "another")] + items[1:])
        require(not (rm == other) and rm != other, "maps with different values are equal", rm, other)
        less = immutablerangemap(items[1:])
        require(not (rm == less) and rm != less, "maps with different keys are equal", rm, less)
    require(not (rm == "x") and rm != 3, "equal to something else")
    own = OwnMap(rev)
    require(rm == rev and own == rm and OwnMap(rm) == own, "a user's map with the same entries in another order is not equal", rm, own)
    if items:
        require(not (own == less), "a user's map with other keys is equal", less, own)


sets = st.one_of(
    st.lists(specs(width=2, unbounded=False), max_size=7), st.lists(specs(width=1), max_size=6)
)


@st.composite
def two_sets(draw):
    """Often equal unions reached in two ways."""
    domain = draw(domains())
    s1 = draw(sets)
    if draw(st.booleans()):
        s2 = list(draw(st.permutations(s1)))
        if draw(st.booleans()):
            # the coalesced members instead
            s2 = [spec_of(m) for m in coalesce([model(s) for s in s1])]
        if s2 and draw(st.booleans()):
            s2 = s2 + [s2[0]]
        if s2 and draw(st.booleans()):
            s2 = s2[1:]
    else:
        s2 = draw(sets)
    return (domain, s1, s2, draw(st.booleans()), draw(st.booleans()))


hows = ["copy", "deepcopy", "0", "1", "2", "3", "4", "5"]

PROP = Prop(
    "C05",
    [
        Sub("large", large_cases(1300), check_large_copies, 60, 20, "20 members or more"),
        Sub("thousands", THOUSANDS, check_thousands_values, 24, 12, "more than a thousand members"),
        Sub("equality", two_sets(), check_equality, 2500, 30, "both sets are non-empty"),
        Sub("family", family_cases(mutable=1, builder=1, add=6, add_all=2, clear=1, build=2, immutable_copy=4, copy=3, hash=1), check_family, 2000, 40,
            "two additions which change a set, and a copy or a build"),
        Sub(
            "snapshots",
            st.tuples(domains(), sets, sets, st.sampled_from(["immutable_copy"] * 4 + hows), st.booleans()),
            check_snapshots, 2500, 30, "the original is non-empty and changes after the copy",
        ),
        Sub(
            "immutable",
            st.tuples(domains(), sets, st.sampled_from(["immutable_copy"] + hows)),
            check_immutable_copies, 1500, 20, "empty, or more than one member",
        ),
        Sub(
            "maps",
            st.tuples(domains(), sets, st.lists(st.sampled_from([0, 1, "", "x", None, (1, 2), int, len, coalesce, frozenset(), False, 0.5, ((),)]), min_size=1, max_size=4), st.sampled_from(hows)),
            check_map_copies, 1500, 20, "at least two keys",
        ),
    ],
    assumptions=["endpoint types are totally ordered by `<` consistently with `==` (no NaN)"],
)
