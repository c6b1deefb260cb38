"""C34 Attribute helpers: validation, conversion, and fresh mutable state per instance."""
import collections
import importlib

import attr
from hypothesis import strategies as st

import immutablecollections
from core import Prop, Sub, raises, require, same
from immutablecollections import ImmutableDict, ImmutableSet, ImmutableSetMultiDict


class _Attrutils:
    """Imported when used: a module which cannot be imported is a violation, not a broken check."""

    def __getattr__(self, name):
        return getattr(importlib.import_module("vistautils.attrutils"), name)


attrutils = _Attrutils()

TYPES = {"int": int, "str": str, "list": list, "float": float, "int-or-str": (int, str), "Mapping": dict,
         "bool": bool, "bytes": bytes, "int-or-none": (int, type(None)), "object": object, "nested": ((int, bytes), str),
         "three": (int, str, bytes), "three with object": (int, str, object), "object and int": (object, int), "four": (float, list, dict, type(None)), "bool or str": (bool, str),
         "twice": (int, int, int), "none": type(None), "none or": (type(None), str), "one": (str,), "eight": (int, str, bytes, float, dict, set, frozenset, list), "five nested": ((int, str), bytes, (float, (dict, list))), "none first": (type(None), int, str, bytes, list), "deep": ((((bytes,),),), (int, (float,)))}
VALUES = {
    "0": lambda: 0, "5": lambda: 5, "''": lambda: "", "'x'": lambda: "x", "[]": lambda: [], "[1]": lambda: [1], "{}": lambda: {},
    "1.5": lambda: 1.5, "None": lambda: None, "True": lambda: True, "b'x'": lambda: b"x",
}


def check_types(case, ctx):
    t, v, default = case
    typ = TYPES[t]
    x = VALUES[v]()
    d = VALUES[default]()

    @attr.s
    class C:
        req = attrutils.attrib_instance_of(typ)
        opt = attrutils.attrib_opt_instance_of(typ)

    @attr.s
    class D:
        opt = attrutils.attrib_opt_instance_of(typ, default=d)

    good = next(g for g in ("0", "'x'", "[]", "1.5", "{}", "True", "b'x'", "None") if isinstance(VALUES[g](), typ))
    ok = isinstance(x, typ)
    ctx.mark(not x or not ok, "instance" if ok else "other")
    if ok:
        c = C(x)
        require(c.req is x and c.opt is None, "fields")
        require(C(VALUES[good](), x).opt is x, "optional field")
    else:
        raises(TypeError, lambda: C(x), "a required %s from %r" % (t, x))
        if x is None:
            require(C(VALUES[good](), None).opt is None, "optional field")
        else:
            raises(TypeError, lambda: C(VALUES[good](), x), "an optional %s from %r" % (t, x))
    raises(TypeError, lambda: C(), "a required attribute which is missing")  # pylint:disable=unnecessary-lambda
    if d is None or isinstance(d, typ):
        require(D().opt is d, "default of an optional attribute")
        if x is None or ok:
            # also None instead of the default
            require(D(x).opt is x, "an optional attribute with a default", D(x).opt)
        else:
            raises(TypeError, lambda: D(x), "an optional %s from %r" % (t, x))
    else:
        raises(TypeError, lambda: D(), "a default of another type")  # pylint:disable=unnecessary-lambda


def check_fresh(case, ctx):
    xs, ys = case
    ctx.mark(bool(xs) and xs != ys)

    @attr.s
    class C:
        items = attrutils.attrib_factory(list)
        builder = attrutils.attrib_private_immutable_builder(ImmutableSet)

    a, b = C(), C()
    require(a.items is not b.items and a.builder is not b.builder, "two instances share their state")
    for x in xs:
        a.items.append(x)
        a.builder.add(x)
    for y in ys:
        b.items.append(y)
        b.builder.add(y)
    same((a.items, b.items), (list(xs), list(ys)), "lists of two instances")
    same(list(a.builder.build()), list(dict.fromkeys(xs)), "builder of the first instance")
    same(list(b.builder.build()), list(dict.fromkeys(ys)), "builder of the second instance")
    same(C().items, [], "a new instance")
    raises(TypeError, lambda: C([], ImmutableSet.builder()), "a private builder as an argument")
    # the factory is called once for each instance which was not given a value, when it is made, and not before
    made = []

    def make():
        made.append(object())
        return made[-1]

    @attr.s
    class E:
        own = attrutils.attrib_factory(make)

    same(len(made), 0, "calls of a factory before there is an instance")
    for i, given in enumerate([None, xs, ys, None]):
        n = len(made)
        if given is None:
            require(E().own is made[-1] and len(made) == n + 1, "the value of a factory")
        else:
            require(E(given).own is given and len(made) == n, "a value given in place of that of the factory")

    # a factory which makes another value each time, whatever its kind
    for kind in (int, str, float, lambda i: (i,), lambda i: None if i % 2 else i, bool, lambda i: [] if i % 2 else [i]):
        values = iter([kind(i) for i in range(4)])

        @attr.s
        class F:
            own = attrutils.attrib_factory(lambda: next(values))

        same([F().own for _ in range(4)], [kind(i) for i in range(4)], "values of a factory")


IMM = {"set": ImmutableSet, "dict": ImmutableDict, "multidict": ImmutableSetMultiDict}


def contents(c, kind):
    if kind in ("dict", "multidict"):
        return sorted((k, v) for k, v in c.items())
    return list(c)


def check_immutable(case, ctx):
    kind, pairs, how = case
    pairs = list(pairs)
    typ = IMM[kind]

    @attr.s
    class C:
        req = attrutils.attrib_immutable(typ)

    @attr.s
    class D:
        opt = attrutils.attrib_opt_immutable(typ)

    if kind == "set":
        src = [k for k, _ in pairs]
        want = list(dict.fromkeys(src))
    elif kind == "dict":
        pairs = list(dict(pairs).items())
        src = list(pairs)
        want = sorted(pairs)
    else:
        src = list(pairs)
        want = sorted(set(pairs))
    ctx.mark(len(want) > 1)
    ctx.label(kind, how)
    arg = src if how == "source" else typ.of(src)
    if kind == "set" and src:
        # texts are collections of characters, like any other iterable
        for given in ("".join(src) if all(len(x) == 1 for x in src) else list(src), tuple(src), dict.fromkeys(src), iter(src), (x for x in src)):
            again = list(given) if isinstance(given, str) or hasattr(given, "__next__") else given
            one = C(again if hasattr(given, "__next__") else given)
            same(contents(one.req, kind), want, "contents made of a %s" % type(given).__name__)
            one = D(again if hasattr(given, "__next__") else given)
            same(contents(one.opt, kind), want, "contents made of a %s" % type(given).__name__)
    c, d = C(arg), D(arg)
    for x in (c.req, d.opt):
        require(isinstance(x, typ), "not of the immutable type", type(x))
        same(contents(x, kind), want, "contents")
    if how == "source" and isinstance(arg, list):
        # later changes of the source do not matter
        arg.append(("later", 1) if kind == "dict" else "later")
        same(contents(c.req, kind), want, "contents after the source changed")
        same(contents(d.opt, kind), want, "contents after the source changed")
    for e in (D(), D(None)):
        require(isinstance(e.opt, typ), "the default is not of the immutable type", type(e.opt))
        same(len(e.opt), 0, "length of the default")
    raises(TypeError, lambda: C(), "a required attribute which is missing")  # pylint:disable=unnecessary-lambda
    if kind == "set":
        # items of any types, in containers of any kind
        mixed = [(1, "a", None, (2,), 1.5, b"", frozenset())[(v + i) % 7] for i, (_, v) in enumerate(pairs)]
        for container in (list, tuple, frozenset, dict.fromkeys, collections.deque, iter, set, lambda x: dict.fromkeys(x).keys(), lambda x: (y for y in x)):
            try:
                typ.of(container(mixed))
            except ValueError:
                # sets of which the order is not known
                continue
            for x in (C(container(mixed)).req, D(container(mixed)).opt):
                require(isinstance(x, typ), "not of the immutable type", type(x))
                same(set(x), set(mixed), "contents of mixed types")
    # any iterable will do, whatever its truth value; what is none is refused, also when it is false
    src = src[: len(src) - 1] if how == "source" else src
    for x in (C(iter(src)).req, D(iter(src)).opt, C(FalsyList(src)).req, D(FalsyList(src)).opt):
        require(isinstance(x, typ), "not of the immutable type", type(x))
        same(contents(x, kind), contents(typ.of(src), kind), "contents")
    for bad in (0, False, 0.0):
        raises(TypeError, lambda: C(bad), "a container from %r" % (bad,))
        raises(TypeError, lambda: D(bad), "an optional container from %r" % (bad,))


class FalsyList(list):
    def __bool__(self):
        return False


def check_many(case, ctx):
    """Containers of hundreds of items."""
    kind, n, stride, how = case
    check_immutable((kind, [("k%d" % (i * stride % n), i % 3) for i in range(n)] + [("k0", 1), ("k0", 1)], how), ctx)
    check_fresh(([i * stride % n for i in range(n)], list(range(n // 2))), ctx)


def check_refused(case, ctx):
    typ = {"list": list, "dict": dict, "int": int, "set": set, "frozenset": frozenset}[case]
    ctx.mark()
    for f in (attrutils.attrib_immutable, attrutils.attrib_opt_immutable, attrutils.attrib_private_immutable_builder):
        raises(ValueError, lambda: f(typ), "%s of %s" % (f.__name__, case))


class Lengthy(list):
    """As long as a list, and yet false."""

    def __bool__(self):
        return False


def check_non_empty(case, ctx):
    kind, n = case
    make = {"text": lambda: "x" * n, "list": lambda: [None] * n, "tuple": lambda: (0,) * n, "bytes": lambda: b"\0" * n, "dict": lambda: dict.fromkeys(range(n)), "range": lambda: range(n),
            "set": lambda: set(range(n)), "lengthy": lambda: Lengthy([0] * n), "immutable": lambda: IMM["set"].of(range(n))}[kind]
    ctx.mark(n > 0)
    got = attrutils.non_empty(None, None, make())
    require(got is (n > 0), "non_empty of a %s of length %d" % (kind, n), got)


val = st.sampled_from(sorted(VALUES))
items = st.lists(st.integers(0, 4), max_size=5)

PROP = Prop(
    "C34",
    [
        Sub("types", st.tuples(st.sampled_from(sorted(TYPES)), val, val), check_types, 600, 3, "false, or of another type"),
        Sub("fresh", st.tuples(items, items), check_fresh, 300, 5, "two different contents"),
        Sub("immutable", st.tuples(st.sampled_from(sorted(IMM)), st.lists(st.tuples(st.sampled_from("abc"), st.integers(0, 3)), max_size=5), st.sampled_from(["source", "immutable"])),
            check_immutable, 600, 5, "two or more items"),
        Sub("non_empty", st.tuples(st.sampled_from(["text", "list", "tuple", "bytes", "dict", "range", "set", "lengthy", "immutable"]), st.integers(0, 3)), check_non_empty, 60, 2, "not empty"),
        Sub("many", st.tuples(st.sampled_from(sorted(IMM)), st.integers(10, 300) | st.sampled_from([1100]), st.sampled_from([1, 7]), st.sampled_from(["source", "immutable"])), check_many, 40, 10, "all"),
        Sub("refused", st.sampled_from(["list", "dict", "int", "set", "frozenset"]), check_refused, 10, 1, "all"),
    ],
)
