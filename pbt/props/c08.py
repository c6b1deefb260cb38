"""C08 Span indexes agree with a linear scan."""
import random

from attr import attrib, attrs
from hypothesis import strategies as st

from core import Prop, Sub, raises, require, same
from vistautils.span import HasSpan, HasSpanIndex, Span


@attrs(frozen=True, hash=True, cmp=True)
class Item(HasSpan):
    """Equality includes name and span."""

    name = attrib()
    span = attrib()


@attrs(frozen=True, hash=True, cmp=True)
class ByName(HasSpan):
    """Equal when the names are, wherever they are in the text."""

    name = attrib()
    span = attrib(hash=False, cmp=False)


@attrs(frozen=True, hash=False, cmp=False)
class ById(HasSpan):
    name = attrib()
    span = attrib()

    def __bool__(self):
        return False


CLASSES = {"item": Item, "by-name": ByName, "by-id": ById}


def key(item):
    return (item.name, item.span.start, item.span.end)


def unique(items):
    out = []
    for i in items:
        if not any(i == o for o in out):
            out.append(i)
    return out


def same_set(got, want, what):
    got = list(got)
    want = unique(want)
    same(len(got), len(want), "number of items in %s" % what)
    for w in want:
        require(any(g == w for g in got), "%s lacks an item" % what, w, got)


def moved(entries, queries):
    """Everything moved to offsets around zero, with spans at -1 and -2 (whose hashes are equal)."""
    entries = [(n, (a - 8, b - 8)) for n, (a, b) in entries]
    queries = [(a - 8, b - 8) for a, b in queries]
    known = list(queries) + [s for _, s in entries]
    queries += [(-3 - a, b) for a, b in known if a in (-1, -2) and b > -1] + [(a, -3 - b) for a, b in known if b in (-1, -2) and a < -2]
    return entries, queries


def check_overlapping(case, ctx):
    cls, entries, queries, how = case
    if len(queries) % 3 == 2:
        entries, queries = moved(entries, queries)
    items = [CLASSES[cls]("n%d" % n, Span(*s)) for n, s in entries]
    index = HasSpanIndex.index(items if how else iter(items))
    spans = {i.span for i in items}
    ctx.mark(len(items) > len(spans) or any(a.overlaps(b) and a != b for a in spans for b in spans), "rich")
    ctx.label(cls)
    for q in list(queries) + [(s.start, s.end) for s in spans]:
        q = Span(*q)
        Q = set(range(q.start, q.end))

        def offs(i):
            return set(range(i.span.start, i.span.end))

        exact = [i for i in items if i.span == q]
        if len(exact) > 1:
            ctx.label("several-exact")
        same_set(index.get_exactly_matching(q), exact, "get_exactly_matching(%r)" % q)
        same_set(index.get_overlapping(q), [i for i in items if offs(i) & Q], "get_overlapping(%r)" % q)
        same_set(index.get_contained(q), [i for i in items if offs(i) <= Q], "get_contained(%r)" % q)
        same_set(index.get_containing(q), [i for i in items if offs(i) >= Q], "get_containing(%r)" % q)


def check_disjoint(case, ctx):
    cls, entries, queries, how = case
    if len(queries) % 3 == 2:
        entries, queries = moved(entries, queries)
    items = [CLASSES[cls]("n%d" % n, Span(*s)) for n, s in entries]
    ctx.label(cls)
    clash = any(
        items[i].span.overlaps(items[j].span)
        and not (items[i].span == items[j].span and items[i] == items[j])
        for i in range(len(items))
        for j in range(i)
    )
    if clash:
        ctx.mark(
            label="clash-identical"
            if len({i.span for i in items}) < len(items)
            else "clash"
        )
        raises(ValueError, lambda: HasSpanIndex.index_disjoint(items), "disjoint index of overlapping %r" % (items,))
        return
    index = HasSpanIndex.index_disjoint(items if how else iter(items))
    ctx.mark(len(items) >= 2, "disjoint>=2")
    for q in list(queries) + [(i.span.start, i.span.end) for i in items]:
        q = Span(*q)
        Q = set(range(q.start, q.end))

        def offs(i):
            return set(range(i.span.start, i.span.end))

        exact = [i for i in items if i.span == q]
        got = index.get_exactly_matching(q)
        same(got, exact[0] if exact else None, "get_exactly_matching(%r)" % q)
        if exact and cls == "by-name":
            same(got.span, q, "span of the exact match")
        over = [i for i in items if offs(i) & Q]
        if len(over) > 1:
            ctx.label("several-overlapping")
        same_set(index.get_overlapping(q), over, "get_overlapping(%r)" % q)
        same_set(index.get_contained(q), [i for i in items if offs(i) <= Q], "get_contained(%r)" % q)
        containing = [i for i in items if offs(i) >= Q]
        got = index.get_containing(q)
        same(got, containing[0] if containing else None, "get_containing(%r)" % q)
        if containing:
            ctx.label("contained")
            same(got.span, containing[0].span, "span of the containing item")


@st.composite
def small(draw, lo=0, hi=16):
    a = draw(st.integers(lo, hi - 1))
    return (a, draw(st.integers(a + 1, min(hi, a + 8))))


@st.composite
def disjoint_entries(draw):
    cuts = sorted(draw(st.sets(st.integers(0, 24), max_size=12)))
    out = []
    i = 0
    while i + 1 < len(cuts):
        out.append((draw(st.integers(0, 3)), (cuts[i], cuts[i + 1])))
        # adjacent or with a gap
        i += draw(st.integers(1, 2))
    out = list(draw(st.permutations(out)))
    if out and draw(st.integers(0, 5)) == 0:
        n, s = draw(st.sampled_from(out))
        out.append((draw(st.sampled_from([n, n + 1])), s))
    return out


def check_large(case, ctx):
    """Hundreds of items, with the spans in any order."""
    cls, n, seed, disjoint = case
    rnd = random.Random(seed)
    if disjoint:
        cuts = sorted(rnd.sample(range(n * 8 + 10), 2 * n))
        spans = [(cuts[i], cuts[i + 1]) for i in range(0, 2 * n, 2)]
        for i in range(1, len(spans)):
            if rnd.random() < 0.4:
                spans[i] = (spans[i - 1][1], spans[i][1])
    else:
        spans = []
        for _ in range(n):
            a = rnd.randrange(n * 2)
            spans.append((a, a + rnd.choice([1, 2, 5, 30, n])))
        if rnd.random() < 0.5:
            # short ones, and a few long ones anywhere among them
            spans = [(a, a + 1 + (b - a) % 3) for a, b in spans]
            for _ in range(rnd.choice([1, 1, 2, 5])):
                i = rnd.randrange(n)
                spans[i] = (spans[i][0], spans[i][0] + rnd.randrange(1, 2 * n + 2))
    rnd.shuffle(spans)
    offset = rnd.choice([0, 10 ** 6, -n, -10 ** 6])
    scale = rnd.choice([1, 1, 1, 2, 977, 10 ** 7])
    spans = [Span(a * scale + offset, b * scale + offset) for a, b in spans]
    items = [CLASSES[cls]("n%d" % i, s) for i, s in enumerate(spans)]
    ctx.mark(n >= 30)
    ctx.label("items>=%d" % (n // 50 * 50))
    make = HasSpanIndex.index_disjoint if disjoint else HasSpanIndex.index
    index = make(items if rnd.random() < 0.5 else iter(items))
    top = max(s.end for s in spans)
    for _ in range(20):
        kind = rnd.randrange(4)
        near = rnd.choice(spans)
        if kind == 0:
            q = near
        elif kind == 1:
            a = near.start + rnd.randrange(-2, 3)
            q = Span(a, max(a + 1, near.end + rnd.randrange(-2, 3)))
        elif kind == 2:
            a, b = sorted(rnd.sample(range(offset, top + 5), 2))
            q = Span(a, b)
        else:
            a = rnd.randrange(near.start, near.end)
            q = Span(a, a + 1)
        over = [i for i in items if i.span.start < q.end and q.start < i.span.end]
        inside = [i for i in items if q.start <= i.span.start and i.span.end <= q.end]
        around = [i for i in items if i.span.start <= q.start and q.end <= i.span.end]
        exact = [i for i in items if i.span.start == q.start and i.span.end == q.end]
        key = lambda i: (i.span.start, i.span.end, i.name)  # noqa
        same(sorted(index.get_overlapping(q), key=key), sorted(over, key=key), "get_overlapping(%r) among %d items" % (q, n))
        same(sorted(index.get_contained(q), key=key), sorted(inside, key=key), "get_contained(%r) among %d items" % (q, n))
        if disjoint:
            same(index.get_containing(q), around[0] if around else None, "get_containing(%r) among %d items" % (q, n))
            same(index.get_exactly_matching(q), exact[0] if exact else None, "get_exactly_matching(%r) among %d items" % (q, n))
        else:
            same(sorted(index.get_containing(q), key=key), sorted(around, key=key), "get_containing(%r) among %d items" % (q, n))
            same(sorted(index.get_exactly_matching(q), key=key), sorted(exact, key=key), "get_exactly_matching(%r) among %d items" % (q, n))
    if disjoint:
        # one more item, overlapping another one, is refused wherever it comes
        near = rnd.choice(spans)
        a = rnd.randrange(near.start, near.end)
        more = list(items)
        more.insert(rnd.randrange(n + 1), CLASSES[cls]("clash", Span(a, a + rnd.randrange(1, 4))))
        raises(ValueError, lambda: make(more), "disjoint index of %d items, one of them overlapping" % (n + 1))


classes = st.sampled_from(sorted(CLASSES))
queries = st.lists(small(hi=24), min_size=1, max_size=5)

PROP = Prop(
    "C08",
    [
        Sub(
            "overlapping",
            st.tuples(classes, st.lists(st.tuples(st.integers(0, 3), small()), max_size=9), queries, st.booleans()),
            check_overlapping, 1500, 40, "identical or partially overlapping spans",
        ),
        Sub(
            "disjoint",
            st.tuples(classes, disjoint_entries() | disjoint_entries() | st.lists(st.tuples(st.integers(0, 3), small()), max_size=4), queries, st.booleans()),
            check_disjoint, 2500, 40, "two or more items, or a clash which must be refused",
        ),
        Sub(
            "large",
            st.tuples(classes, st.integers(1, 40) | st.integers(40, 300), st.integers(0, 10 ** 6), st.booleans()),
            check_large, 120, 30, "30 or more items",
        ),
    ],
    assumptions=["items are hashable consistently with their equality"],
)
