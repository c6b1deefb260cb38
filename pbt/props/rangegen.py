"""Shared by C01-C06: ordered domains, range specs, and the position model.

A *spec* is (kind, a, b) over indexes into a strictly increasing domain of values.  The model maps
the value with index v to position 4v, the cut just below it to 4v-1 and the cut just above it to
4v+1; unbounded ends are -INF and INF.  A range is then the pair (lower cut, upper cut) and
contains the values with lower < 4v < upper.
"""
from datetime import date, timedelta
from decimal import Decimal
from fractions import Fraction

from hypothesis import strategies as st

from vistautils.range import Range

INF = 10 ** 9


class OnlyLess:
    """A totally ordered value with nothing but `<`, `==` and a hash."""

    def __init__(self, n):
        self._n = n

    def __lt__(self, other):
        return self._n < other._n

    def __eq__(self, other):
        return isinstance(other, OnlyLess) and self._n == other._n

    def __hash__(self):
        return hash(("OnlyLess", self._n))

    def __repr__(self):
        return "<%d>" % self._n

    __le__ = None
    __gt__ = None
    __ge__ = None


# every function builds a fresh object on each call where the type allows it
DOMAINS = {
    "int": lambda i: i - 5,
    "bigint": lambda i: 10 ** 20 + i * 10 ** 6,
    "float": lambda i: (float("-inf") if i == 0 else (i - 5) * 0.75),
    "str": lambda i: "".join(["", "k%03d" % i]) if i else "",
    "bytes": lambda i: b"%c" % i if i else b"",
    "date": lambda i: date(2020, 2, 25) + timedelta(days=i),
    "tuple": lambda i: (i // 3, i % 3) if i else (),
    "fraction": lambda i: Fraction(i - 4, 7),
    "decimal": lambda i: Decimal(i - 3) / 4,
    "mixednum": lambda i: (i - 4) if i % 2 else float(i - 4),
    "bool_int": lambda i: [False, True][i] if i < 2 else i,
    "only_less": OnlyLess,
}
DOMAIN_NAMES = sorted(DOMAINS)
N = 14

FULL_KINDS = (
    "open",
    "closed",
    "closed_open",
    "open_closed",
    "less_than",
    "at_most",
    "greater_than",
    "at_least",
    "all",
)
BOUNDED = FULL_KINDS[:4]


def model(spec):
    kind, a, b = spec
    if kind == "all":
        return (-INF, INF)
    if kind == "less_than":
        return (-INF, 4 * b - 1)
    if kind == "at_most":
        return (-INF, 4 * b + 1)
    if kind == "greater_than":
        return (4 * a + 1, INF)
    if kind == "at_least":
        return (4 * a - 1, INF)
    lo = 4 * a + (1 if kind in ("open", "open_closed") else -1)
    hi = 4 * b + (1 if kind in ("closed", "open_closed") else -1)
    return (lo, hi)


def legal(spec):
    lo, hi = model(spec)
    return lo <= hi


def build(domain, spec):
    kind, a, b = spec
    f = DOMAINS[domain] if isinstance(domain, str) else domain
    if kind == "all":
        return Range.all()
    if kind in ("less_than", "at_most"):
        return getattr(Range, kind)(f(b))
    if kind in ("greater_than", "at_least"):
        return getattr(Range, kind)(f(a))
    return getattr(Range, kind)(f(a), f(b))


def spec_of(m):
    """A spec for a model pair (the inverse of model)."""
    lo, hi = m
    if lo == -INF and hi == INF:
        return ("all", 0, 0)
    if lo == -INF:
        b = (hi + 1) // 4
        return ("at_most" if hi > 4 * b else "less_than", 0, b)
    if hi == INF:
        a = (lo + 1) // 4
        return ("greater_than" if lo > 4 * a else "at_least", a, 0)
    a, b = (lo + 1) // 4, (hi + 1) // 4
    low_open, up_closed = lo > 4 * a, hi > 4 * b
    kind = {
        (True, False): "open",
        (False, True): "closed",
        (False, False): "closed_open",
        (True, True): "open_closed",
    }[(low_open, up_closed)]
    return (kind, a, b)


def observe(rng, domain, n):
    """Read a real range back as a model pair, through its public accessors only."""
    from vistautils.range import BoundType

    f = DOMAINS[domain] if isinstance(domain, str) else domain

    def idx(v):
        for i in range(n):
            if f(i) == v:
                return i
        return None

    lo, hi = -INF, INF
    if rng.has_lower_bound():
        i = idx(rng.lower_endpoint)
        if i is None:
            return None
        lo = 4 * i + (1 if rng.lower_bound_type is BoundType.open() else -1)
    if rng.has_upper_bound():
        i = idx(rng.upper_endpoint)
        if i is None:
            return None
        hi = 4 * i + (1 if rng.upper_bound_type is BoundType.closed() else -1)
    return (lo, hi)


def domains():
    return st.sampled_from(DOMAIN_NAMES)


def any_specs(n=N):
    """Including illegal ones."""
    return st.tuples(
        st.sampled_from(FULL_KINDS), st.integers(0, n - 1), st.integers(0, n - 1)
    )


@st.composite
def specs(draw, n=N, unbounded=True, width=None):
    """Legal specs; (a..a), which is invalid, is turned into a singleton."""
    kind = draw(
        st.sampled_from(BOUNDED * 3 + FULL_KINDS if unbounded else BOUNDED)
    )
    a = draw(st.integers(0, n - 1))
    if width is None:
        b = draw(st.integers(0, n - 1))
    else:
        b = min(n - 1, a + draw(st.integers(0, width)))
    if a > b:
        a, b = b, a
    if kind == "open" and a == b:
        kind = "closed"
    return (kind, a, b)


# ---- model operations


def m_is_empty(m):
    return m[0] == m[1]


def m_contains(m, v):
    return m[0] < 4 * v < m[1]


def m_encloses(m, o):
    return m[0] <= o[0] and m[1] >= o[1]


def m_connected(m, o):
    return m[0] <= o[1] and o[0] <= m[1]


def m_inter(m, o):
    return (max(m[0], o[0]), min(m[1], o[1]))


def m_span(m, o):
    return (min(m[0], o[0]), max(m[1], o[1]))


def m_add(ranges, m):
    """Add to a sorted list of disconnected model pairs, coalescing; the obvious way."""
    if m_is_empty(m):
        return list(ranges)
    cur = m
    rest = list(ranges)
    changed = True
    while changed:
        changed = False
        for r in list(rest):
            if m_connected(r, cur):
                cur = m_span(r, cur)
                rest.remove(r)
                changed = True
    rest.append(cur)
    return sorted(rest)


def coalesce(models):
    ret = []
    for m in models:
        ret = m_add(ret, m)
    return ret
