"""Generators and reference operations for trees of parameters.

A tree is a dict from names to leaves or trees; leaves are ints, floats, bools, strings or lists.
"""
import collections
import copy
import datetime
import decimal
import math
import types
from pathlib import PurePosixPath

from hypothesis import strategies as st
from immutablecollections import ImmutableDict

from vistautils.parameters import Parameters

NAMES = ["a", "b", "c", "d", "key", "x-y", "z_1", "\u00e9", "two words", "0", "A", " a", "b ", "e\u0301", "01"]
names = st.sampled_from(["a", "b", "c"]) | st.sampled_from(["a", "b"]) | st.sampled_from(NAMES)

scalars = (
    st.integers(-3, 3)
    | st.sampled_from([0, 1, False, True, "", 0.0, 1.5, -2.5, 10 ** 30, "a", "a.b", "yes", "RED"])
    | st.floats(allow_nan=False, allow_infinity=False, width=32)
    | st.text(st.sampled_from("ab .x1\u00e9"), max_size=5)
)
lists = st.recursive(
    st.lists(scalars, max_size=3), lambda l: st.lists(scalars | l, max_size=3), max_leaves=6
)
leaves = scalars | scalars | lists
Pair = collections.namedtuple("Pair", ["left", "right"])


class Mass(collections.UserList):
    pass


# values of other kinds than YAML knows
odd = st.sampled_from([(), (1, 2), ("b", "a"), frozenset(), frozenset([2, 1]), frozenset(["a"]), b"", b"x", datetime.date(2020, 1, 2), 2j, decimal.Decimal("1.50"),
                       PurePosixPath("a/b"), ..., 10 ** 40, float("inf"), [(1, 2), [3]], [frozenset([1])], range(3), Pair(1, 2), Pair("a", [Pair(0, ())]), [Pair(3, 4)],
                       collections.Counter, Mass([1]), collections.deque([1, 2])])
# lists which contain mappings (which are values, no namespaces) and what is false
lists_of_mappings = st.lists(st.sampled_from([{"b": 1}, {}, {"a": {"b": []}}, {"a.b": 1}]) | st.sampled_from([0, "", False, None, [], "a", 0.0, [{"c": 2}, None]]), min_size=1, max_size=4)


def _same(x):
    return x


def trees(leaf=leaves, depth=3, min_size=0, max_size=4, name=names):
    """Trees of some depth; every second entry or so is a namespace."""
    flat = leaf.map(_same)
    if depth == 0:
        return st.dictionaries(name, flat, min_size=min_size, max_size=max_size)
    entry = flat | trees(leaf, depth - 1, 0, 3, name).map(_same)
    bigger = st.dictionaries(name, entry, min_size=max(min_size, 2), max_size=max(max_size, 3))
    return st.dictionaries(name, entry, min_size=min_size, max_size=max_size) | bigger.map(_same)


def compatible_trees(leaf=leaves, depth=3):
    """Trees in which capital names are namespaces and small ones are not: never in conflict."""
    d = st.dictionaries(st.sampled_from(["a", "b", "c"]), leaf, max_size=3)
    for _ in range(depth):
        d = st.tuples(
            st.dictionaries(st.sampled_from(["a", "b", "c"]), leaf, max_size=3),
            st.dictionaries(st.sampled_from(["N", "M"]), d, max_size=2),
            st.booleans(),
        ).map(lambda x: dict(x[0], **x[1]) if x[2] else dict(x[1], **x[0]))
    return d


ABSENT = object()
THROUGH_LEAF = object()


def resolve(tree, path):
    """The value at a dotted path, ABSENT, or THROUGH_LEAF if the path goes on below a leaf."""
    cur = tree
    for part in path.split("."):
        if not isinstance(cur, dict):
            return THROUGH_LEAF
        if part not in cur:
            return ABSENT
        cur = cur[part]
    return cur


def paths(tree, prefix=()):
    """All paths in a tree, to leaves and to namespaces, as tuples."""
    out = []
    for k, v in tree.items():
        out.append(prefix + (k,))
        if isinstance(v, dict):
            out.extend(paths(v, prefix + (k,)))
    return out


def leaf_items(tree, prefix=()):
    out = []
    for k, v in tree.items():
        if isinstance(v, dict):
            out.extend(leaf_items(v, prefix + (k,)))
        else:
            out.append((".".join(prefix + (k,)), v))
    return out


def exactly(a, b):
    """Equality which also compares the types of leaves (1, 1.0 and True are different)."""
    if isinstance(a, dict) or isinstance(b, dict):
        return (
            isinstance(a, dict)
            and isinstance(b, dict)
            and a.keys() == b.keys()
            and all(exactly(a[k], b[k]) for k in a)
        )
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(exactly, a, b))
    if isinstance(a, float) and not a and isinstance(b, float) and not b:
        return type(a) is type(b) and math.copysign(1, a) == math.copysign(1, b)
    return type(a) is type(b) and a == b


def content(params):
    """A Parameters as a tree, read through the documented conversion."""
    return params.as_nested_dicts()


def same_tree(params, tree, what):
    from core import Violation, _short

    got = content(params)
    if not exactly(got, tree):
        raise Violation("%s: got %s, expected %s" % (what, _short(got), _short(tree)))


def near_misses(tree):
    """Paths close to those which exist: extended below leaves and namespaces, misspelt."""
    out = ["nosuch", "nosuch.a"]
    for p in paths(tree):
        out.append(".".join(p + ("nosuch",)))
        out.append(".".join(p + (p[-1],)))
        out.append(".".join(p[:-1] + ("nosuch",)))
        out.append(".".join(p[1:] or ("nosuch",)))
        out.append(".".join(p[:-1] + (p[-1] + "x",)))
        out.extend(x for q in [".".join(p)] for x in (q + " ", " " + q, q.upper(), q.strip()) if x != q)
    return out


class OwnMapping(collections.abc.Mapping):
    """A mapping which is no dictionary."""

    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class OwnDict(dict):
    pass


MAPPING_KINDS = [
    dict, collections.OrderedDict, lambda d: collections.ChainMap(d), types.MappingProxyType, collections.UserDict,
    ImmutableDict.of, OwnMapping, lambda d: collections.defaultdict(list, d), OwnDict,
]


def as_kinds(tree, kinds):
    """The same tree made of mappings of the kinds given (by number), in turn from the inside."""
    at = iter(range(10 ** 9))

    def go(t):
        d = {k: go(v) if isinstance(v, dict) else copy.deepcopy(v) for k, v in t.items()}
        return MAPPING_KINDS[kinds[next(at) % len(kinds)]](d)

    return go(tree)


mapping_kinds = st.lists(st.integers(0, len(MAPPING_KINDS) - 1), min_size=1, max_size=4)


def make(tree):
    """Parameters of a tree, which share none of its lists."""
    return Parameters.from_mapping(copy.deepcopy(tree))
