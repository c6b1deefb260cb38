"""C01 Range: construction, membership, bounds, equality."""
import copy
import pickle
from datetime import datetime, timedelta, timezone
from decimal import Decimal
from fractions import Fraction

from hypothesis import strategies as st

from core import Prop, Sub, raises, require, same
from props.rangegen import (
    BOUNDED,
    DOMAINS,
    FULL_KINDS,
    INF,
    N,
    any_specs,
    build,
    domains,
    m_contains,
    m_is_empty,
    model,
    specs,
    legal,
)
from vistautils.range import BoundType, Range


def check_single(case, ctx):
    domain, spec = case
    f = DOMAINS[domain]
    kind, a, b = spec
    lo, hi = model(spec)
    ctx.label(kind)
    if not legal(spec):
        ctx.mark(label="illegal")
        raises(ValueError, lambda: build(domain, spec), "constructing an inverted range")
        return
    r = build(domain, spec)
    ctx.mark(label="empty" if m_is_empty((lo, hi)) else "legal")
    for v in range(N):
        same(f(v) in r, m_contains((lo, hi), v), "%r in %r" % (f(v), r))
    same(r.is_empty(), lo == hi, "is_empty of %r" % r)
    same(r.has_lower_bound(), lo != -INF, "has_lower_bound of %r" % r)
    same(r.has_upper_bound(), hi != INF, "has_upper_bound of %r" % r)
    if lo != -INF:
        same(r.lower_endpoint, f(a), "lower_endpoint of %r" % r)
        want = BoundType.open() if kind in ("open", "open_closed", "greater_than") else BoundType.closed()
        require(r.lower_bound_type is want, "lower_bound_type of %r is wrong" % r)
    else:
        raises(ValueError, lambda: r.lower_endpoint, "endpoint of an unbounded end")
    if hi != INF:
        same(r.upper_endpoint, f(b), "upper_endpoint of %r" % r)
        want = BoundType.open() if kind in ("open", "closed_open", "less_than") else BoundType.closed()
        require(r.upper_bound_type is want, "upper_bound_type of %r is wrong" % r)
    else:
        raises(ValueError, lambda: r.upper_endpoint, "endpoint of an unbounded end")
    # the documented notation
    text = (
        ("(-\u221e" if lo == -INF else ("(" if kind in ("open", "open_closed", "greater_than") else "[") + str(f(a)))
        + ".."
        + ("+\u221e)" if hi == INF else str(f(b)) + (")" if kind in ("open", "closed_open", "less_than") else "]"))
    )
    if domain != "tuple":
        # (%-formatting a tuple endpoint is not promised)
        same(repr(r), text, "notation")
    raises(ValueError, lambda: None in r, "None in a range")
    for x in ("x", None, 3, (lo, hi)):
        require(not (r == x), "a range equals %r" % (x,))
        require(r != x, "not (range != %r)" % (x,))


def check_pair(case, ctx):
    domain, s1, s2 = case
    r1, r2 = build(domain, s1), build(domain, s2)
    eq = model(s1) == model(s2)
    ctx.label("equal" if eq else "different")
    ctx.mark(eq or model(s1)[0] == model(s2)[0] or model(s1)[1] == model(s2)[1])
    same(r1 == r2, eq, "%r == %r" % (r1, r2))
    same(r2 == r1, eq, "%r == %r" % (r2, r1))
    same(r1 != r2, not eq, "%r != %r" % (r1, r2))
    if eq:
        same(hash(r1), hash(r2), "hash of equal ranges %r" % r1)
        same(len({r1, r2}), 1, "set of equal ranges")
    else:
        same(len({r1, r2}), 2, "set of different ranges")
    d = {r1: 1}
    same(r2 in d, eq, "%r as key, looked up by %r" % (r1, r2))


def check_copies(case, ctx):
    domain, spec, how = case
    r = build(domain, spec)
    ctx.label(spec[0])
    ctx.mark(spec[0] not in BOUNDED, "unbounded")
    ctx.mark(domain != "int")
    if how == "copy":
        c = copy.copy(r)
    elif how == "deepcopy":
        c = copy.deepcopy(r)
    else:
        c = pickle.loads(pickle.dumps(r, int(how)))
    require(c == r and r == c, "a copy (%s) differs" % how, r, c)
    same(hash(c), hash(r), "hash of a copy (%s) of %r" % (how, r))
    m = model(spec)
    same(c.has_lower_bound(), m[0] != -INF, "has_lower_bound of a copy (%s) of %r" % (how, r))
    same(c.has_upper_bound(), m[1] != INF, "has_upper_bound of a copy (%s) of %r" % (how, r))
    for v in range(0, N, 2):
        x = DOMAINS[domain](v)
        same(x in c, m_contains(m, v), "%r in a copy (%s) of %r" % (x, how, r))
    same(repr(c), repr(r), "notation of a copy")


def check_wide_ints(case, ctx):
    """Arbitrary integers and floats, probes next to the endpoints."""
    kind, a, b, probes = case
    lo_open = kind in ("open", "open_closed", "greater_than")
    hi_open = kind in ("open", "closed_open", "less_than")
    has_lo = kind not in ("less_than", "at_most", "all")
    has_hi = kind not in ("greater_than", "at_least", "all")

    def inside(x):
        if has_lo and not (a < x or (a == x and not lo_open)):
            return False
        if has_hi and not (x < b or (x == b and not hi_open)):
            return False
        return True

    if has_lo and has_hi:
        make = lambda: getattr(Range, kind)(a, b)  # noqa
        if b < a or (a == b and kind == "open"):
            ctx.mark(label="illegal")
            raises(ValueError, make, "constructing an inverted range")
            return
        r = make()
    elif has_lo:
        r = getattr(Range, kind)(a)
    elif has_hi:
        r = getattr(Range, kind)(b)
    else:
        r = Range.all()
    ctx.mark(label=kind)
    for x in list(probes) + [a, b, a - 1, a + 1, b - 1, b + 1, (a + b) / 2 if abs(a) + abs(b) < 1e300 else a]:
        same(x in r, inside(x), "%r in %r" % (x, r))


class Version:
    """Totally ordered; equal versions may be written differently."""

    def __init__(self, text):
        self.text = text
        self.key = tuple(int(p) for p in text.split("."))

    def __lt__(self, other):
        return self.key < other.key

    def __eq__(self, other):
        return isinstance(other, Version) and self.key == other.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "v" + self.text


# values in their order, each in several representations which are equal to each other
REPRESENTATIONS = {
    "numbers": [[-1, -1.0, Decimal("-1.0")], [0, 0.0, -0.0, False], [0.5, Fraction(1, 2), Decimal("0.50")], [1, True, 1.0, Fraction(1), Decimal("1.00")], [2, 2.0]],
    "versions": [[Version("1.2"), Version("01.2"), Version("1.02")], [Version("1.3"), Version("1.03")], [Version("2.0"), Version("2.00")]],
    "texts": [["", str()], ["a", "".join(["a"])], ["b", "bc"[:1]]],
    "odd texts": [[x] for x in sorted(["", " ", "\n", " a", " a ", "a ", "a\n", "%s", "{0}", "\u00e9", "..", "[", ")", "a" * 300])],
    "dates": [[datetime(2020, 1, 1, h, tzinfo=timezone(timedelta(hours=h))) for h in (0, 1, 2)],
              [datetime(2020, 1, 2, h, tzinfo=timezone(timedelta(hours=h))) for h in (2, 1, 0)]],
}


def check_representations(case, ctx):
    """Endpoints are given back as they were given, not as something equal to them."""
    kind, domain, a, ra, b, rb = case
    values = REPRESENTATIONS[domain]
    a, b = a % len(values), b % len(values)
    lower, upper = values[a][ra % len(values[a])], values[b][rb % len(values[b])]
    has_lo = kind not in ("less_than", "at_most", "all")
    has_hi = kind not in ("greater_than", "at_least", "all")
    if has_lo and has_hi:
        if b < a or (a == b and kind == "open"):
            raises(ValueError, lambda: getattr(Range, kind)(lower, upper), "constructing an inverted range")
            return
        r = getattr(Range, kind)(lower, upper)
    else:
        r = getattr(Range, kind)(*([lower] if has_lo else [upper] if has_hi else []))
    ctx.mark(a == b and repr(lower) != repr(upper))
    if has_lo:
        same((type(r.lower_endpoint), repr(r.lower_endpoint)), (type(lower), repr(lower)), "lower endpoint of %r" % (r,))
    if has_hi:
        same((type(r.upper_endpoint), repr(r.upper_endpoint)), (type(upper), repr(upper)), "upper endpoint of %r" % (r,))
    text = ("(-\u221e" if not has_lo else ("(" if kind in ("open", "open_closed", "greater_than") else "[") + str(lower)) + ".." + (
        "+\u221e)" if not has_hi else str(upper) + (")" if kind in ("open", "closed_open", "less_than") else "]"))
    same(repr(r), text, "notation")
    m = model((kind, a, b))
    same(r.is_empty(), m_is_empty(m), "is_empty of %r" % (r,))
    for i, xs in enumerate(values):
        for x in xs:
            same(x in r, m_contains(m, i), "%r in %r" % (x, r))
    # the same bounds in other representations make an equal range
    others = [values[a][(ra + 1) % len(values[a])]] if has_lo else []
    others += [values[b][(rb + 1) % len(values[b])]] if has_hi else []
    o = getattr(Range, kind)(*others)
    require(o == r and r == o and not o != r, "ranges with equal bounds differ", o, r)
    same(hash(o), hash(r), "hash of equal ranges")
    # what is written like the endpoints is not equal to them
    if (has_lo or has_hi) and "" not in (str(lower), str(upper)) and not isinstance(lower, str):
        texts = [Shown(str(x), i) for i, x in ((a, lower), (b, upper))]
        texts = texts if has_lo and has_hi else texts[:1] if has_lo else texts[1:]
        s = getattr(Range, kind)(*texts)
        same(repr(s), repr(r), "notation")
        require(s != r and r != s and not s == r, "ranges with endpoints which are only written alike are equal", r)


class Shown:
    """Written like something else."""

    def __init__(self, text, at):
        self.text, self.at = text, at

    def __lt__(self, other):
        return self.at < other.at

    def __eq__(self, other):
        return isinstance(other, Shown) and self.at == other.at

    def __hash__(self):
        return hash(self.at)

    def __repr__(self):
        return self.text


nums = st.one_of(
    st.integers(-20, 20),
    st.integers(-(2 ** 80), 2 ** 80),
    st.floats(-1e6, 1e6),
    st.sampled_from([0, -1, 1, 2 ** 31, 2 ** 63 - 1, 2 ** 63, -(2 ** 63), 1e-300, -0.0, 256, 257]),
)


@st.composite
def equalish(draw):
    domain = draw(domains())
    s1 = draw(specs())
    if draw(st.booleans()):
        s2 = s1
    else:
        s2 = draw(st.one_of(specs(), st.sampled_from(FULL_KINDS).map(lambda k: (k, s1[1], s1[2]))))
        if not legal(s2):
            s2 = s1
    return (domain, s1, s2)


PROP = Prop(
    "C01",
    [
        Sub("single", st.tuples(domains(), any_specs()), check_single, 3000, 30,
            "a range that is legal (all probes compared) or must be rejected"),
        Sub("pair", equalish(), check_pair, 2500, 30, "the two ranges share an endpoint cut"),
        Sub("copies", st.tuples(domains(), specs(), st.sampled_from(["copy", "deepcopy", "0", "1", "2", "3", "4", "5"])),
            check_copies, 1500, 20, "unbounded, or of another type than int"),
        Sub("representations",
            st.tuples(st.sampled_from(FULL_KINDS + BOUNDED * 2), st.sampled_from(sorted(REPRESENTATIONS)), *[st.integers(0, 14)] * 4),
            check_representations, 1200, 20, "endpoints which are equal but not written alike"),
        Sub("wide", st.tuples(st.sampled_from(FULL_KINDS), nums, nums, st.lists(nums, max_size=4)),
            check_wide_ints, 2500, 30, "all"),
    ],
    assumptions=["endpoint types are totally ordered by `<` consistently with `==` (no NaN)"],
)
