"""C31 Preconditions: pass exactly when they should, return their argument, raise what they promise."""
import collections.abc
from fractions import Fraction

from hypothesis import strategies as st

from core import Prop, Sub, raises, require, run_python, same
from vistautils.preconditions import (
    check_all_isinstance,
    check_arg,
    check_args_are_none,
    check_args_not_none,
    check_in,
    check_isinstance,
    check_issubclass,
    check_not_none,
    check_opt_isinstance,
    check_state,
)


class Base:
    pass


class Derived(Base):
    pass


class EqualToAll(Base):
    """Equal to None, and to all else."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None


class NoComparison(Base):
    def __eq__(self, other):
        raise TypeError("not comparable")

    __ne__ = __eq__
    __hash__ = None


class Pretender(Base):
    """Is taken for an int or not (like a mock with a specification), whatever its type is."""

    def __init__(self, pretends):
        self.pretends = pretends

    @property
    def __class__(self):
        return int if self.pretends else Pretender


class Falsy(Base):
    def __bool__(self):
        return False


CLASSES = {
    "int": int, "str": str, "bytes": bytes, "list": list, "dict": dict, "tuple": tuple, "float": float,
    "bool": bool, "Base": Base, "Derived": Derived, "Falsy": Falsy, "object": object, "NoneType": type(None),
    "Sequence": collections.abc.Sequence, "Sized": collections.abc.Sized, "Fraction": Fraction,
}

VALUES = {
    "0": lambda: 0, "1": lambda: 1, "-1": lambda: -1, "''": lambda: "", "'a'": lambda: "a", "b''": lambda: b"", "[]": lambda: [],
    "[0]": lambda: [0], "{}": lambda: {}, "()": lambda: (), "0.0": lambda: 0.0, "False": lambda: False, "True": lambda: True,
    "None": lambda: None, "Base": Base, "Derived": Derived, "Falsy": Falsy, "Fraction": lambda: Fraction(0),
    "type": lambda: int, "tuple": lambda: (1, 2), "EqualToAll": EqualToAll, "NoComparison": NoComparison,
    "[None]": lambda: [None], "(None,)": lambda: (None, 1), "{None}": lambda: {None: None}, "pretends": lambda: Pretender(True), "honest": lambda: Pretender(False),
}
value = st.sampled_from(sorted(VALUES))
clazz = st.sampled_from(sorted(CLASSES))
info = clazz | st.lists(clazz, min_size=1, max_size=3).map(tuple)
MSGS = [None, "", "plain", "100% wrong", "100%%", "%s", "%d items", "{}", "caf\u00e9 %", "%(x)s", " m\n", "m ", " ", "0", "two\nlines", "x" * 500]
msg = st.sampled_from(MSGS)


def classes(i):
    return CLASSES[i] if isinstance(i, str) else tuple(CLASSES[x] for x in i)


def has_message(e, msg, what):
    if msg:
        same(str(e), msg, "message of %s" % what)


def check_conditions(case, ctx):
    v, m = case
    x = VALUES[v]()
    ctx.mark(v not in ("True", "1"), "falsy" if not x else "truthy")
    args = (x,) if m is None else (x, m)
    # check_arg: any false value is an error
    if x:
        same(check_arg(*args), None, "check_arg")
        same(check_state(*args), None, "check_state")
    else:
        has_message(raises(ValueError, lambda: check_arg(*args), "check_arg(%r)" % (x,)), m, "check_arg")
        if m is not None:
            has_message(raises(ValueError, lambda: check_arg(x, m, ()), "check_arg(%r)" % (x,)), m, "check_arg")
            has_message(raises(ValueError, lambda: check_arg(x, m, None), "check_arg(%r)" % (x,)), m, "check_arg")
        has_message(raises(AssertionError, lambda: check_state(*args), "check_state(%r)" % (x,)), m, "check_state")
    # check_not_none: only None is
    if x is None:
        has_message(raises(ValueError, lambda: check_not_none(*args), "check_not_none(None)"), m, "check_not_none")
    else:
        require(check_not_none(*args) is x, "check_not_none does not return its argument", x)


def check_formatting(case, ctx):
    template, margs, ok = case
    ctx.mark()
    if ok:
        check_arg(True, template, margs)
    else:
        e = raises(ValueError, lambda: check_arg(False, template, margs), "check_arg")
        same(str(e), template % margs, "formatted message")


def check_variadic(case, ctx):
    vs, m = case
    xs = [VALUES[v]() for v in vs]
    ctx.mark(len(xs) >= 2)
    kw = {} if m is None else {"msg": m}
    if all(x is None for x in xs):
        check_args_are_none(*xs, **kw)
    else:
        has_message(raises(ValueError, lambda: check_args_are_none(*xs, **kw), "check_args_are_none"), m, "check_args_are_none")
    if all(x is not None for x in xs):
        check_args_not_none(*xs, **kw)
    else:
        has_message(raises(ValueError, lambda: check_args_not_none(*xs, **kw), "check_args_not_none"), m, "check_args_not_none")


def check_types(case, ctx):
    v, i, others = case
    x = VALUES[v]()
    c = classes(i)
    ok = isinstance(x, c)
    ctx.label("instance" if ok else "other", "falsy" if not x else "truthy")
    ctx.mark(not x or not ok or not isinstance(i, str))
    if ok:
        require(check_isinstance(x, c) is x, "check_isinstance does not return its argument")
    else:
        e = raises(TypeError, lambda: check_isinstance(x, c), "check_isinstance")
        require(repr(x) in str(e), "the message does not show the item", str(e))
    if ok or x is None:
        require(check_opt_isinstance(x, c) is x, "check_opt_isinstance does not return its argument")
    else:
        raises(TypeError, lambda: check_opt_isinstance(x, c), "check_opt_isinstance")
    xs = [VALUES[o]() for o in others]
    if all(isinstance(o, c) for o in xs):
        check_all_isinstance(xs, c)
        check_all_isinstance(iter(xs), c)
        check_all_isinstance(tuple(xs), c)
    else:
        ctx.label("some-wrong")
        e = raises(TypeError, lambda: check_all_isinstance(xs, c), "check_all_isinstance(%r, %r)" % (xs, c))
        require(any(repr(o) in str(e) for o in xs if not isinstance(o, c)), "the message shows no item of another type", str(e))
        raises(TypeError, lambda: check_all_isinstance(iter(xs), c), "check_all_isinstance(%r, %r)" % (xs, c))


def check_collections(case, ctx):
    """The items of any iterable: the keys of dictionaries, the characters of texts, the numbers of bytes."""
    v, i, others = case
    c = classes(i)
    coll = {"dict": {0: "a", 1: None}, "by name": {"a": 0}, "text": "ab", "bytes": b"ab", "empty": {}, "range": range(3), "set": {"a", 0}, "values": {"a": 0}.values(), "items": {"a": 0}.items()}[v]
    ctx.mark(len(coll) > 0)
    if all(isinstance(o, c) for o in coll):
        check_all_isinstance(coll, c)
    else:
        raises(TypeError, lambda: check_all_isinstance(coll, c), "check_all_isinstance(%r, %r)" % (coll, c))


def check_subclass(case, ctx):
    a, i = case
    c = classes(i)
    k = CLASSES[a]
    ctx.mark(k is not c)
    if issubclass(k, c):
        ctx.label("subclass")
        require(check_issubclass(k, c) is k, "check_issubclass does not return its argument")
    else:
        raises(TypeError, lambda: check_issubclass(k, c), "check_issubclass(%r, %r)" % (k, c))


class Unequal:
    """Says of everything that it is not equal to it, itself included."""

    def __eq__(self, other):
        return False

    __hash__ = object.__hash__


class Everything:
    """Equals everything."""

    def __eq__(self, other):
        return True

    __hash__ = object.__hash__


EVERYTHING = Everything()


def check_membership(case, ctx):
    x, legal, how, name = case
    coll = {"list": list, "tuple": tuple, "set": set, "dict": lambda l: {k: 1 for k in l}}[how](legal)
    args = (x, coll) if name is None else (x, coll, name)
    if len(legal) % 2:
        # not a number equals nothing but is found in what holds this very object
        ctx.label("not a number")
        number = float("nan")
        raises(ValueError, lambda: check_in(number, coll), "check_in(nan, %r)" % (coll,))
        raises(ValueError, lambda: check_in(number, [*legal, float("nan")], "value"), "check_in(nan, [... another nan])")
        same(check_in(number, [*legal, number]), None, "check_in(nan, [... nan])")
        for thing in (Unequal(), EVERYTHING):
            # whatever `in` says
            for values in ([*legal, EVERYTHING], [*legal, thing], [*legal, Unequal()], list(legal)):
                if thing in values:
                    same(check_in(thing, values), None, "check_in of a thing with an equality of its own")
                else:
                    raises(ValueError, lambda: check_in(thing, values), "check_in of a thing with an equality of its own")  # noqa
    ctx.mark(len(legal) > 0, "in" if x in legal else "out")
    if x in legal:
        same(check_in(*args), None, "check_in")
    else:
        e = raises(ValueError, lambda: check_in(*args), "check_in(%r, %r)" % (x, coll))
        require(str(x) in str(e), "the message does not show the item", str(e))
        if name:
            require(name in str(e), "the message does not show the name", str(e))
        if len(coll) <= 10:
            for l in coll:
                require(repr(l) in str(e), "the message does not show the legal values", str(e))


def check_many_legal(case, ctx):
    """Many legal values, which need not be hashable."""
    n, odd, x, how = case
    legal = list(range(n))
    legal.insert(n // 2, odd)
    coll = {"list": list, "tuple": tuple}[how](legal)
    ctx.mark(n > 20)
    if x in legal:
        same(check_in(x, coll), None, "check_in")
    else:
        e = raises(ValueError, lambda: check_in(x, coll, "colour"), "check_in(%r, %d values)" % (x, n))
        require(str(x) in str(e) and "colour" in str(e), "the message does not show the item", str(e))


OPTIMIZED = """
from props import c31
for name, case in %r:
    try:
        getattr(c31, name)(case, c31.NoCtx())
    except core.Violation as e:
        print("FAILED", name, case, e)
"""


class NoCtx:
    def mark(self, *args, **kwargs):
        pass

    label = mark


def check_optimized(cases, ctx):
    """The same with assertions switched off (python -O): the checks do not depend on it."""
    ctx.mark(len(cases) > 1)
    same(run_python(OPTIMIZED % (list(cases),), hash_seed=0, options=["-O"]), "", "failures with assertions switched off")


things = st.one_of(st.integers(-3, 30), st.sampled_from(["", "a", "b", None, False, 0.5, "%s", "1", "2", "None", 1.0, "A", b"a", "ab", (1,)]))

PROP = Prop(
    "C31",
    [
        Sub("conditions", st.tuples(value, msg), check_conditions, 1500, 5, "not simply true"),
        Sub("formatting", st.one_of(
            st.tuples(st.just("got %s and %r"), st.tuples(things, things), st.booleans()),
            st.tuples(st.just("got %(a)s, not %(b)r"), st.fixed_dictionaries({"a": things, "b": things, "c": things}), st.booleans()),
            st.tuples(st.just("%d%%"), st.tuples(st.integers()), st.booleans()),
            st.tuples(st.just("%s"), st.tuples(things), st.booleans())), check_formatting, 500, 5, "all"),
        Sub("variadic", st.tuples(st.lists(value | st.just("None"), max_size=4), msg), check_variadic, 1500, 10, "two or more"),
        Sub("types", st.tuples(value, info | st.just("int"), st.lists(value, max_size=4) | st.lists(st.sampled_from(["pretends", "honest", "0", "True"]), max_size=4)), check_types, 3000, 10, "falsy, of another type, or several types"),
        Sub("collections", st.tuples(st.sampled_from(["dict", "by name", "text", "bytes", "empty", "range", "set", "values", "items"]), info, st.just(0)), check_collections, 300, 5, "not empty"),
        Sub("subclass", st.tuples(clazz, info), check_subclass, 1000, 5, "not the class itself"),
        Sub("membership", st.tuples(things, st.lists(things, max_size=14), st.sampled_from(["list", "tuple", "set", "dict"]),
                                    st.sampled_from([None, "colour", "x%", " a ", "two words", "\n", "0"])), check_membership, 1500, 10, "some legal values"),
        Sub("many legal", st.tuples(st.sampled_from([0, 5, 10, 11, 50, 51, 100, 101, 300, 1001]), st.sampled_from([[], [1], {}, {"a": 1}, {3}, "a", 0.5, None]),
                                    st.sampled_from([[], [1], [2], {}, {"a": 1}, {3}, {4}, "a", "b", 0.5, 3.0, 1.5, None, -1, 4, 200, True]), st.sampled_from(["list", "tuple"])), check_many_legal, 300, 5, "more than twenty legal values"),
        Sub("optimized", st.lists(
            st.tuples(st.just("check_conditions"), st.tuples(value, msg))
            | st.tuples(st.just("check_variadic"), st.tuples(st.lists(value | st.just("None"), max_size=4), msg))
            | st.tuples(st.just("check_types"), st.tuples(value, info, st.lists(value, max_size=4)))
            | st.tuples(st.just("check_subclass"), st.tuples(clazz, info)), max_size=200), check_optimized, 12, 5, "several cases"),
    ],
)
