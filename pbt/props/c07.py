"""C07 Span: the algebra of half-open offset intervals."""
import random

from hypothesis import strategies as st

from core import Prop, Sub, raises, require, same
from vistautils.range import BoundType
from vistautils.span import HasSpan, Span


class Named(Span):
    """A span of a class of one's own."""


class Item(HasSpan):
    def __init__(self, span):
        self.span = span


def offsets(s):
    return set(range(s[0], s[1]))


def check_one(case, ctx):
    start, end, probes, shift = case
    if start >= end:
        ctx.mark(label="illegal")
        raises(ValueError, lambda: Span(start, end), "Span(%d, %d)" % (start, end))
        raises(ValueError, lambda: Span.from_inclusive_to_exclusive(start, end), "Span(%d, %d)" % (start, end))
        return
    ctx.mark(label="legal")
    s = Span(start, end)
    same((s.start, s.end), (start, end), "offsets")
    same(len(s), end - start, "len")
    require(bool(s), "a span is false")
    same(Span.from_inclusive_to_exclusive(start, end), s, "from_inclusive_to_exclusive")
    same(hash(Span(start, end)), hash(s), "hash")
    same(repr(s), "[%d:%d)" % (start, end), "notation")
    holder = Item(s)
    same((holder.start, holder.end), (start, end), "offsets of an item with the span")
    for p in list(probes) + [start - 1, start, start + 1, end - 1, end, end + 1]:
        same(s.contains_offset(p), start <= p < end, "%r contains_offset %d" % (s, p))
        same(holder.contains_offset(p), start <= p < end, "item at %r contains_offset %d" % (s, p))
        same(holder.contains_offset(p + 0.5), s.contains_offset(p + 0.5), "item at %r contains_offset %r" % (s, p + 0.5))
        same(p in s.as_range(), start <= p < end, "%d in the range of %r" % (p, s))
    r = s.as_range()
    same((r.lower_endpoint, r.upper_endpoint), (start, end - 1), "as_range of %r" % s)
    require(
        r.lower_bound_type is BoundType.closed() and r.upper_bound_type is BoundType.closed(),
        "as_range is not closed",
        r,
    )
    moved = s.shift(shift)
    same((moved.start, moved.end), (start + shift, end + shift), "%r shifted by %d" % (s, shift))
    same(moved.shift(-shift), s, "shifting back")
    same((s.start, s.end), (start, end), "offsets after shifting")
    for attr in ("start", "end"):
        raises((AttributeError, TypeError), lambda: setattr(s, attr, 0), "assigning to %s of a span" % attr)


def check_pair(case, ctx):
    a, b = case
    A, B = offsets(a), offsets(b)
    x, y = Span(*a), Span(*b)
    common = A & B
    ctx.label("overlap" if common else "apart", "equal" if a == b else "different")
    ctx.mark(bool(common) and a != b or a[1] == b[0] or b[1] == a[0])
    for p, q, P, Q in ((x, y, A, B), (y, x, B, A)):
        same(p.overlaps(q), bool(common), "%r overlaps %r" % (p, q))
        same(p.contains_span(q), Q <= P, "%r contains_span %r" % (p, q))
        same(Item(p).contains_span(q), Q <= P, "item at %r contains_span %r" % (p, q))
        same(q in p, Q <= P, "%r in %r" % (q, p))
        same(p.precedes(q), max(P) < min(Q), "%r precedes %r" % (p, q))
        same(p.follows(q), min(P) > max(Q), "%r follows %r" % (p, q))
        want = Span(min(common), max(common) + 1) if common else None
        same(p.intersection(q), want, "intersection of %r and %r" % (p, q))
        same(p.clip_to(q), want, "%r clipped to %r" % (p, q))
        same(p == q, a == b, "%r == %r" % (p, q))
        same(p != q, a != b, "%r != %r" % (p, q))
        union = P | Q
        same(
            Span.minimal_enclosing_span([p, q]),
            Span(min(union), max(union) + 1),
            "minimal_enclosing_span of %r and %r" % (p, q),
        )
    # also with spans of a class of one's own
    want = Span(min(common), max(common) + 1) if common else None
    same(x.clip_to(Named(*b)), want, "%r clipped to a span of another class, %r" % (x, y))
    same(x.intersection(Named(*b)), want, "intersection of %r with a span of another class, %r" % (x, y))
    same(x < y, a < b, "%r < %r" % (x, y))
    same(len({x, y}), 1 if a == b else 2, "set of both")


def check_many(case, ctx):
    spans, how, shift, scale, times, at = case
    # each of them once, or several times further along
    spans = [(a * scale + i * 20, b * scale + i * 20) for i in range(times) for a, b in spans]
    if spans:
        # so that the widest may be anywhere
        at %= len(spans)
        spans = spans[at:] + spans[:at]
    real = [Span(*s) for s in spans]
    arg = {"list": list, "tuple": tuple, "iter": iter, "generator": lambda l: (x for x in l), "set": set}[how](real)
    ctx.label(how)
    if not spans:
        raises(ValueError, lambda: Span.minimal_enclosing_span(arg), "enclosing span of nothing")
        ctx.mark(label="none")
        return
    ctx.mark(len(set(spans)) > 1)
    same(
        Span.minimal_enclosing_span(arg),
        Span(min(s[0] for s in spans), max(s[1] for s in spans)),
        "minimal_enclosing_span of %s %r" % (how, real),
    )
    got = sorted(real, key=Span.earliest_then_longest_first_key)
    want = [Span(*s) for s in sorted(spans, key=lambda s: (s[0], -(s[1] - s[0])))]
    same(got, want, "earliest_then_longest_first_key order")
    # shifting commutes with everything
    same(
        Span.minimal_enclosing_span([s.shift(shift) for s in real]),
        Span.minimal_enclosing_span(real).shift(shift),
        "enclosing span of shifted spans",
    )


ints = st.one_of(st.integers(-8, 8), st.integers(-(10 ** 12), 10 ** 12), st.sampled_from([255, 256, 257, 258, 2 ** 61]))


@st.composite
def small(draw, lo=-6, hi=12):
    a = draw(st.integers(lo, hi - 1))
    return (a, draw(st.integers(a + 1, hi)))


@st.composite
def pairs(draw):
    a = draw(small())
    b = draw(st.one_of(small(), st.just(a), small().map(lambda s: (a[1], a[1] + (s[1] - s[0]))),
                       small().map(lambda s: (a[0], a[0] + (s[1] - s[0])))))
    scale = draw(st.sampled_from([1, 1, 1, 40, 300]))
    a, b = [(x * scale, y * scale) for x, y in (a, b)]
    off = draw(st.sampled_from([0, 0, 1000, -(10 ** 9), 10 ** 15]))
    p = [(a[0] + off, a[1] + off), (b[0] + off, b[1] + off)]
    return tuple(draw(st.permutations(p)))


def check_crowd(case, ctx):
    """Hundreds of spans, the longest anywhere among them."""
    n, seed, how, order = case
    rnd = random.Random(seed)
    spans = []
    for _ in range(n):
        a = rnd.randrange(-n, 3 * n)
        spans.append((a, a + 1 + rnd.randrange(rnd.choice([1, 3, 20]))))
    for _ in range(rnd.choice([1, 1, 2, 4])):
        i = rnd.randrange(n)
        spans[i] = (spans[i][0] - rnd.choice([0, 0, n]), spans[i][1] + rnd.randrange(5 * n + 1))
    if order != "any":
        spans.sort(reverse=order == "falling")
    ctx.mark(n > 100)
    real = [Span(*s) for s in spans]
    arg = {"list": list, "tuple": tuple, "iter": iter, "generator": lambda x: (y for y in x), "set": set}[how](real)
    same(Span.minimal_enclosing_span(arg), Span(min(s[0] for s in spans), max(s[1] for s in spans)), "minimal_enclosing_span of %d spans" % n)
    got = sorted(real, key=Span.earliest_then_longest_first_key)
    same(got, [Span(*s) for s in sorted(spans, key=lambda s: (s[0], s[0] - s[1]))], "earliest_then_longest_first_key order of %d spans" % n)


def check_refused(case, ctx):
    """Offsets are integers, and do not change."""
    ctx.mark()
    start, end = case
    e = raises((TypeError, ValueError), lambda: Span(start, end), "Span(%r, %r)" % (start, end))
    if not (isinstance(start, int) and isinstance(end, int)) and type(start) is type(end):
        require(isinstance(e, TypeError), "Span(%r, %r) is refused with %r" % (start, end, e))
    s = Span(1, 5)
    for name in ("start", "end"):
        for value in (start, end, 2):
            raises(AttributeError, lambda: setattr(s, name, value), "assigning the %s of a span" % name)
    same(s, Span(1, 5), "a span after the attempts to change it")


def check_huge(case, ctx):
    """Offsets beyond what len() can tell."""
    start, length, by, lo, hi = case
    end = start + length
    ctx.mark(length > 2 ** 63)
    s = Span(start, end)
    same((s.start, s.end, repr(s)), (start, end, "[%d:%d)" % (start, end)), "a huge span")
    moved = s.shift(by)
    same((moved.start, moved.end), (start + by, end + by), "a huge span shifted")
    same(moved.shift(-by), s, "shifting back")
    o = Span(start + lo, end + hi)
    want = Span(start + max(lo, 0), end + min(hi, 0))
    for got, what in ((s.clip_to(o), "clip_to"), (o.clip_to(s), "clip_to"), (s.intersection(o), "intersection"), (o.intersection(s), "intersection")):
        same(got, want, "%s of huge spans" % what)
    require(s.overlaps(o) and s.contains_offset(end - 1) and not s.contains_offset(end), "offsets of a huge span")
    same(s.contains_span(o), lo >= 0 >= hi, "contains_span of huge spans")
    same(Span.minimal_enclosing_span([s, o]), Span(start + min(lo, 0), end + max(hi, 0)), "minimal_enclosing_span of huge spans")
    require(s.precedes(Span(end, end + 1)) and Span(end, end + length).follows(s) and not s.precedes(o), "order of huge spans")
    same(sorted([s, o], key=Span.earliest_then_longest_first_key), sorted([s, o], key=lambda x: (x.start, x.start - x.end)), "order of huge spans")


PROP = Prop(
    "C07",
    [
        Sub("refused", st.sampled_from([("a", "b"), (1.0, 2.0), (0, 2.5), (0.5, 2), (None, None), (None, 3), (3, None), (b"a", b"b"), ((1,), (2,))]),
            check_refused, 9, 1, "all"),
        Sub("one", st.tuples(ints, ints, st.lists(ints, max_size=3), ints) | st.tuples(*[st.integers(-4, 4)] * 2, st.just(()), st.integers(-5, 5)),
            check_one, 3000, 30, "all"),
        Sub("pair", pairs(), check_pair, 4000, 30, "different and overlapping, or touching"),
        Sub("many", st.tuples(st.lists(small(), max_size=7).map(tuple), st.sampled_from(["list", "tuple", "iter", "generator", "set"]), st.integers(-9, 9),
                            st.sampled_from([1, 1, 300, 70000, 10 ** 10]), st.sampled_from([1, 1, 1, 2, 25]), st.integers(0, 99)),
            check_many, 2500, 30, "at least two different spans, or none"),
        Sub("huge", st.tuples(st.integers(-2 ** 70, 2 ** 70) | st.sampled_from([0, -2 ** 63, 2 ** 63]), st.integers(20, 2 ** 72) | st.sampled_from([2 ** 63, 2 ** 63 - 1, 2 ** 64]),
                              st.integers(-2 ** 66, 2 ** 66), st.integers(-9, 9), st.integers(-9, 9)), check_huge, 300, 10, "longer than len() can tell"),
        Sub("crowd", st.tuples(st.integers(1, 100) | st.sampled_from([129, 257, 300, 600, 1100]), st.integers(0, 10 ** 6), st.sampled_from(["list", "tuple", "iter", "generator", "set"]),
                               st.sampled_from(["any", "any", "rising", "falling"])), check_crowd, 100, 20, "more than 100 spans"),
    ],
)
