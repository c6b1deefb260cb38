"""C10 Parameters: lookups, typed accessors, defaults and errors."""
import copy
import enum
import logging
import warnings

from hypothesis import strategies as st

from core import Prop, Sub, Violation, _short, fail, raises, require, same, same_typed
from props.paramgen import (
    ABSENT, THROUGH_LEAF, exactly, leaves, lists, make, near_misses, odd, paths, resolve, same_tree, scalars, trees,
)
from vistautils.parameters import ParameterError, Parameters
from vistautils.range import Range


class Color(enum.Enum):
    RED = 1
    a = 2
    b = 0
    CRIMSON = 1  # an alias


class Level(enum.IntEnum):
    RED = 0
    a = 1


class Flag(enum.Enum):
    b = ""
    RED = False


ENUMS = {"Color": Color, "Level": Level, "Flag": Flag}
TYPES = {"int": int, "str": str, "float": float, "bool": bool, "list": list, "Parameters": Parameters, "object": object}
UNTYPED = {"int": int, "str": str, "float": float, "bool": bool, "list": list}


def check_exact(got, want, what):
    if isinstance(want, dict):
        require(isinstance(got, Parameters), what + " should be a namespace", got)
        same_tree(got, want, what)
    elif not exactly(got, want):
        raise Violation("%s: got %s, expected %s" % (what, _short(got), _short(want)))


def names_param(e, path, what):
    require(path in str(e), what + ": the message does not name the parameter", str(e))


def check_lookup(case, ctx):
    tree, extra, default = case
    p = make(tree)
    every = [".".join(x) for x in paths(tree)] + near_misses(tree)
    every = every[:: 1 + len(every) // 240] + list(extra)
    ctx.mark(len(tree) > 1 or any(isinstance(v, dict) for v in tree.values()))
    for path in every:
        want = resolve(tree, path)
        what = "%r in %s" % (path, _short(tree))
        there = want is not ABSENT and want is not THROUGH_LEAF
        if want is THROUGH_LEAF:
            ctx.label("through leaf")
        same(path in p, there, "presence of " + what)
        same(p.has_namespace(path), there and isinstance(want, dict), "has_namespace " + what)
        if there:
            check_exact(p.get(path, object), want, "get " + what)
            check_exact(p.get(path, object, default=default), want, "get with default " + what)
            check_exact(p.get_optional(path, object), want, "get_optional " + what)
            check_exact(p.get_optional(path, object, default=default), want, "get_optional with default " + what)
        else:
            names_param(raises(ParameterError, lambda: p.get(path, object), "get " + what), path, "get " + what)
            same(p.get_optional(path, object), None, "get_optional " + what)
            check_exact(p.get_optional(path, object, default=default), default, "get_optional with default " + what)
            check_exact(p.get(path, object, default=default), default, "get with default " + what)
        for tname, t in TYPES.items():
            value = want
            if there and isinstance(want, dict):
                fits = t in (Parameters, object)
            else:
                fits = there and isinstance(want, t)
            if there and isinstance(want, bool) and t is int:
                continue
            if fits:
                check_exact(p.get(path, t), value, "get as %s %s" % (tname, what))
                check_exact(p.get_optional(path, t), value, "get_optional as %s %s" % (tname, what))
            else:
                e = raises(ParameterError, lambda: p.get(path, t), "get as %s %s" % (tname, what))
                names_param(e, path, what)
                if there:
                    e = raises(ParameterError, lambda: p.get_optional(path, t), "get_optional as %s %s" % (tname, what))
                    names_param(e, path, what)
                    raises(ParameterError, lambda: p.get(path, t, default=UNTYPED.get(tname, str)()), "get as %s with a default %s" % (tname, what))
        # namespaces
        if there and isinstance(want, dict):
            ctx.label("namespace")
            sub = p.namespace(path)
            same_tree(sub, want, "namespace " + what)
            same(tuple(sub.namespace_prefix), tuple(path.split(".")), "prefix of " + what)
            same(p.optional_namespace(path), sub, "optional_namespace " + what)
            same(p.namespace_or_empty(path), sub, "namespace_or_empty " + what)
            for absent in ("nosuch", "nosuch.x"):
                got = sub.namespace_or_empty(absent)
                same_tree(got, {}, "namespace_or_empty of a missing one of " + what)
                same(".".join(got.namespace_prefix), path + "." + absent, "prefix of an empty namespace of " + what)
            # what is wrong is named as it was asked for there
            for q in [".".join(x) for x in paths(want)][:6]:
                v = resolve(want, q)
                wrong = int if isinstance(v, (dict, str, list)) else list
                for fn in (lambda: sub.get(q, wrong), lambda: sub.get_optional(q, wrong), lambda: sub.arbitrary_list(q) if wrong is list else sub.integer(q),
                           lambda: sub.optional_arbitrary_list(q) if wrong is list else sub.optional_integer(q),
                           lambda: sub.optional_boolean(q) if not isinstance(v, bool) else sub.optional_string(q)):
                    names_param(raises(ParameterError, fn, "%r of another type within %s" % (q, what)), q, "%r within %s" % (q, what))
            for k in want:
                same(sub.get(k, object), p.get(path + "." + k, object), "%r within %s" % (k, what))
            # an error within it names it
            e = raises(ParameterError, lambda: sub.string("nosuch"), "a missing parameter of " + what)
            require(path in str(e) and "nosuch" in str(e), "the message names neither namespace nor parameter", str(e))
        else:
            raises(ParameterError, lambda: p.namespace(path), "namespace " + what)
            same(p.optional_namespace(path), None, "optional_namespace " + what)
            if there:
                raises(ParameterError, lambda: p.namespace_or_empty(path), "namespace_or_empty " + what)
            else:
                got = p.namespace_or_empty(path)
                require(isinstance(got, Parameters), "namespace_or_empty " + what, got)
                same_tree(got, {}, "namespace_or_empty " + what)
                same(".".join(got.namespace_prefix), path, "prefix of the empty namespace " + what)
    same_tree(p, tree, "afterwards")


ranges = st.sampled_from([
    ("all",), ("at_least", 0), ("at_most", 0), ("greater_than", 0), ("closed", -1, 1), ("open", -1, 2), ("less_than", 1.5),
    ("closed", 0, 0), ("closed_open", 0.0, 1.5), ("less_than", 1), ("less_than", 0), ("less_than", 2.0), ("closed_open", 1.0, 1.0), ("closed_open", 0, 0),
    ("open_closed", 0, 0), ("open_closed", -1, 1), ("greater_than", -1), ("at_most", 1),
    ("at_most", -2), ("less_than", -1), ("at_least", -2), ("greater_than", 2), ("at_least", 2), ("closed", -3, -2), ("closed", 2, 3), ("open", -3, -1),
])


def make_range(spec):
    return getattr(Range, spec[0])(*spec[1:])


def admits(spec, x):
    return {
        "all": lambda: True,
        "at_least": lambda: x >= spec[1],
        "at_most": lambda: x <= spec[1],
        "greater_than": lambda: x > spec[1],
        "less_than": lambda: x < spec[1],
        "closed": lambda: spec[1] <= x <= spec[2],
        "open": lambda: spec[1] < x < spec[2],
        "closed_open": lambda: spec[1] <= x < spec[2],
        "open_closed": lambda: spec[1] < x <= spec[2],
    }[spec[0]]()


REQUIRED = {"string": str, "integer": int, "positive_integer": int, "floating_point": float, "boolean": bool, "arbitrary_list": list}
OPTIONAL = {"optional_" + k: v for k, v in REQUIRED.items()}
ALL = dict(REQUIRED, **OPTIONAL)


def expected(method, value, there, default, spec, options):
    """("value", x), ("error",) or ("skip",): what the accessor must do."""
    t = ALL[method]
    optional = method.startswith("optional_")
    kind = method.replace("optional_", "")

    def restrict(x):
        if kind == "positive_integer":
            return x > 0
        if kind == "integer" and not optional and spec is not None:
            return admits(spec, x)
        if kind == "floating_point" and spec is not None:
            return admits(spec, x)
        if kind == "string" and options is not None:
            return x in options
        return True

    if there:
        if isinstance(value, bool) and t is int:
            return ("skip",)
        if not isinstance(value, t):
            return ("error",)
        return ("value", value) if restrict(value) else ("error",)
    if default is None:
        return ("value", None) if optional else ("error",)
    if kind == "string" and optional:
        return ("value", default)
    if kind == "string" and options is not None and default not in options:
        # whether a default must be one of the options is not documented
        return ("skip",)
    return ("value", default) if restrict(default) else ("error",)


def check_typed(case, ctx):
    method, where, value, default, spec, options = case
    t = ALL[method]
    if default is not None and (not isinstance(default, t) or (t is int and isinstance(default, bool))):
        default = None
    tree = {"a": {"b": {"c": value}, "x": value}, "v": value, "leaf": 3}
    p = make(tree)
    found = resolve(tree, where)
    there = found is not ABSENT and found is not THROUGH_LEAF
    want = expected(method, found, there, default, spec, options)
    kwargs = {}
    if default is not None:
        kwargs["default"] = default
    kind = method.replace("optional_", "")
    if kind == "integer" and not method.startswith("optional_") and spec is not None:
        kwargs["valid_range"] = make_range(spec)
    if kind == "floating_point" and spec is not None:
        kwargs["valid_range"] = make_range(spec)
    if kind == "string" and options is not None:
        kwargs["valid_options"] = list(options)
    what = "%s(%r, %s) of %s" % (method, where, kwargs, _short(found) if there else "an absent parameter")
    ctx.label(method, want[0], "there" if there else "absent")
    ctx.mark(want[0] != "skip" and (bool(kwargs) or not there or want[0] == "error"))
    if want[0] == "skip":
        return
    fn = lambda: getattr(p, method)(where, **kwargs)
    if want[0] == "error":
        e = raises(ParameterError, fn, what)
        if there or default is None:
            names_param(e, where, what)
    else:
        check_exact(fn(), want[1], what)
    same_tree(p, tree, "afterwards")


def check_nan(case, ctx):
    """Not-a-number is in no range with a lower bound (what ranges without one say of it is open)."""
    where, spec, default, optional = case
    nan = float("nan")
    p = make({"v": nan, "n": {"v": nan}})
    method = getattr(p, "optional_floating_point" if optional else "floating_point")
    kwargs = {} if default is None else {"default": default}
    ctx.mark(spec is not None)
    if spec is None:
        got = method(where, **kwargs)
        require(isinstance(got, float) and got != got, "not-a-number without a range", got)
    else:
        e = raises(ParameterError, lambda: method(where, make_range(spec), **kwargs), "not-a-number in the range %s" % (spec,))
        names_param(e, where, "not-a-number in the range %s" % (spec,))


def check_enum(case, ctx):
    ename, value, where, default = case
    E = ENUMS[ename]
    p = make({"e": value, "n": {"e": value}})
    there = where in ("e", "n.e")
    d = None if default is None else list(E)[default % len(list(E))]
    ctx.mark(there or d is not None)
    kwargs = {} if d is None else {"default": d}
    what = "enum(%r, %s, %s) of %r" % (where, ename, kwargs, value if there else None)
    fn = lambda: p.enum(where, E, **kwargs)
    if there:
        if isinstance(value, str) and value in E.__members__:
            ctx.label("member")
            require(fn() is E[value], what, fn())
        else:
            ctx.label("no member")
            names_param(raises(ParameterError, fn, what), where, what)
    elif d is not None:
        ctx.label("default")
        require(fn() is d, what, fn())
    else:
        names_param(raises(ParameterError, fn, what), where, what)


def check_one_present(case, ctx):
    tree, asked = case
    p = make(tree)
    present = [a for a in asked if resolve(tree, a) not in (ABSENT, THROUGH_LEAF)]
    ctx.mark(len(present) != 1, "one" if len(present) == 1 else "many" if present else "none")
    fn = lambda: p.assert_exactly_one_present(list(asked))
    what = "exactly one of %r in %s" % (asked, _short(tree))
    if len(present) == 1:
        same(fn(), None, what)
    else:
        e = raises(ParameterError, fn, what)
        for a in present or asked:
            require(repr(a) in str(e), "the message does not name %r" % a, str(e))


def check_sub_namespaces(case, ctx):
    p = make(case)
    want = {k: v for k, v in case.items() if isinstance(v, dict)}
    got = list(p.sub_namespaces())
    ctx.mark(len(want) > 1)
    same([tuple(g.namespace_prefix) for g in got], [(k,) for k in want], "sub-namespaces")
    for g, v in zip(got, want.values()):
        same_tree(g, v, "sub-namespace")


def check_deprecated(case, ctx):
    value, where, default = case
    p = make({"v": value})
    ctx.mark()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fn = lambda: p.optional_boolean_with_default(where, default)
        if where == "v":
            if isinstance(value, bool):
                check_exact(fn(), value, "optional_boolean_with_default")
            else:
                raises(ParameterError, fn, "optional_boolean_with_default of %r" % (value,))
        else:
            check_exact(fn(), default, "optional_boolean_with_default")
        fn = lambda: p.optional_float(where)
        if where == "v":
            if isinstance(value, float):
                check_exact(fn(), value, "optional_float")
            else:
                raises(ParameterError, fn, "optional_float of %r" % (value,))
        else:
            same(fn(), None, "optional_float")
        if isinstance(value, float):
            for rng in (Range.closed(0.0, 1.0), Range.at_least(2.0), Range.open(-1.0, 0.5), Range.less_than(0.0)):
                fn = lambda: p.optional_float(where, rng)  # noqa
                if where == "v" and value not in rng:
                    raises(ParameterError, fn, "optional_float of %r in %s" % (value, rng))
                else:
                    same(fn(), value if where == "v" else None, "optional_float in a range")


def make_classes():
    """Classes some of which have the same name, one below another and one registered."""
    import abc

    A = type("Thing", (), {"__module__": "m"})
    B = type("Thing", (), {"__module__": "m"})
    C = type("Other", (A,), {})
    I = abc.ABCMeta("Thing", (), {"__module__": "m"})
    I.register(B)
    D = type("int", (), {})
    S = type("Text", (str,), {})
    N = type("Parameters", (), {})
    return {"A": A, "B": B, "C": C, "I": I, "D": D, "S": S, "N": N, "int": int, "str": str, "Parameters": Parameters, "bool": bool, "float": float}


def check_classes(case, ctx):
    """Values of any class, some classes having the same names: a value fits where it is an instance."""
    made, where, asked, default = case
    classes = make_classes()
    value = classes[made]()
    if made == "Parameters":
        return
    p = Parameters.from_mapping({"v": value, "n": {"v": value}})
    t = classes[asked]
    if t is int and isinstance(value, bool):
        return
    fits = isinstance(value, t)
    ctx.mark(fits or t.__name__ == type(value).__name__, "fits" if fits else "does not fit")
    kwargs = {}
    if default:
        kwargs["default"] = classes[default]()
    what = "%s of %s asked for %s with %s" % (where, made, asked, kwargs)
    for name in ("get", "get_optional"):
        fn = lambda: getattr(p, name)(where, t, **kwargs)
        if fits:
            require(fn() is value, name + " " + what, fn())
        else:
            names_param(raises(ParameterError, fn, name + " " + what), where, what)
        absent = lambda: getattr(p, name)("n.nosuch", t, **kwargs)
        if default and isinstance(kwargs["default"], t):
            require(absent() is kwargs["default"], name + " of what is absent, " + what)


def probe_sub_namespaces_with_list():
    try:
        return len(make({"a": {"b": [1]}}).sub_namespaces()) != 1
    except TypeError:
        return True


def check_deep(case, ctx):
    """Many namespaces in one another, many names in one."""
    tree, depth, width, extra, default = case
    tree = dict(tree, **{"w%d" % i: i for i in range(width)})
    for i in range(depth):
        tree = {"a": i, "n": tree} if i % 3 else {"n": tree}
    check_lookup((tree, ["n." * k + "a" for k in (1, depth, depth + 1)] + list(extra), default), ctx)


CLASS_NAMES = make_classes()
hashable = trees(scalars, 2)
wheres = st.sampled_from(["v", "v", "a.b.c", "a.x", "v.w", "nosuch", "a.nosuch", "leaf.x", "nosuch.v"])
typical = st.sampled_from([0, 1, -1, True, False, 0.0, 1.5, 2.0, -1.0, "", "a", "b", "RED"]) | st.sampled_from([" a", "a ", "a\n", "A", "b ", "Red", "ab", 10 ** 400, -10 ** 400, 2 ** 63]) | st.sampled_from([[], [0], ["a", []]]) | odd

def check_null(case, ctx):
    """A parameter with the value None (YAML's null) counts as absent but for `get`."""
    path, where, default = case
    tree = {"z": None}
    for k in reversed(path):
        tree = {k: tree, "other": 0}
    p = make(tree)
    name = ".".join(path + ["z"])
    ctx.mark(bool(path))
    what = "%r which is null" % name
    same(name in p, False, "presence of " + what)
    same(p.has_namespace(name), False, "has_namespace " + what)
    same(p.get_optional(name, object), None, "get_optional " + what)
    same(p.get_optional(name, str, default=default), default, "get_optional with a default " + what)
    same(p.optional_namespace(name), None, "optional_namespace " + what)
    same(p.get(name, object), None, "get " + what)
    for t in (int, str, float, bool, list, Parameters):
        names_param(raises(ParameterError, lambda: p.get(name, t), "get as %s %s" % (t, what)), name, what)  # noqa
        same(p.get_optional(name, t), None, "get_optional as %s %s" % (t, what))
    for method in REQUIRED:
        names_param(raises(ParameterError, lambda: getattr(p, method)(name), method + " " + what), name, what)  # noqa
        same(getattr(p, "optional_" + method)(name), None, "optional_" + method + " " + what)
    below = name + "." + where
    same(below in p, False, "presence below " + what)
    raises(ParameterError, lambda: p.get(below, object), "get below " + what)
    raises(ParameterError, lambda: p.assert_exactly_one_present([name]), "exactly one of " + what)
    same_tree(p, tree, "afterwards")


def check_contained(case, ctx):
    """Namespaces within a list or another container are values, and not on the way of any name."""
    tree, how, number, where = case
    ctx.mark(number == 1)
    inner = [make(tree) if how != "dict" else copy.deepcopy(tree) for _ in range(number)]
    value = {"list": inner, "dict": inner, "tuple": tuple(inner), "deep": [inner]}[how]
    p = Parameters.from_mapping({"n": {"v": value, "w": 1}, "v": value})
    kind = tuple if how == "tuple" else list
    require(p.get(where, kind) is value and p.get_optional(where, kind) is value, "the value is another", p.get(where, object))
    if kind is list:
        require(p.arbitrary_list(where) is value and p.optional_arbitrary_list(where) is value, "the list is another")
    same(where in p, True, "presence")
    same(p.has_namespace(where), False, "has_namespace of a container")
    same(p.optional_namespace(where), None, "optional_namespace of a container")
    raises(ParameterError, lambda: p.namespace(where), "namespace of a container")
    raises(ParameterError, lambda: p.namespace_or_empty(where), "namespace_or_empty of a container")
    for below in list(tree) + ["0", "nosuch"]:
        same("%s.%s" % (where, below) in p, False, "presence below a container")
        same(p.get("%s.%s" % (where, below), object, default="d"), "d", "default below a container")
        raises(ParameterError, lambda: p.get("%s.%s" % (where, below), object), "get below a container")  # noqa
    require(len(p.sub_namespaces()) == 1 if kind is tuple else True, "containers as sub-namespaces")


def check_options(case, ctx):
    """A text is one of the options or it is not: what only looks like them, or like some of them, is not."""
    parts, options, how, optional = case
    value = "".join(parts)
    options = list(options)
    given = {"list": options, "tuple": tuple(options), "set": set(options), "dict": dict.fromkeys(options), "frozenset": frozenset(options), "keys": dict.fromkeys(options).keys()}[how]
    p = make({"n": {"v": value}})
    for q, where in ((p, "n.v"), (p.namespace("n"), "v")):
        fn = lambda: (q.optional_string if optional else q.string)(where, given)  # noqa
        if value in options:
            ctx.mark(label="option")
            same_typed(fn(), value, "%r of the options %r" % (value, given))
        else:
            ctx.mark(any(o and o in value or value and value in o for o in options), "nearly")
            names_param(raises(ParameterError, fn, "%r of the options %r" % (value, given)), where, "%r of the options %r" % (value, given))


PROP = Prop(
    "C10",
    [
        Sub("options", st.tuples(st.lists(st.sampled_from(["x", "y", "xy", "X", " ", ",", "\n", "\u00e9", "e\u0301", "."]), max_size=3), st.lists(st.sampled_from(["x", "y", "xy", "", "X y", "x,y", "xyx", "\u00e9", "."]), min_size=0, max_size=4, unique=True),
                                 st.sampled_from(["list", "tuple", "set", "dict", "frozenset", "keys"]), st.booleans()), check_options, 400, 20, "an option, or a part of one"),
        Sub("lookup", st.tuples(trees(), st.lists(st.text(st.sampled_from("abc."), max_size=5), max_size=3), scalars | lists), check_lookup, 900, 40,
            "two parameters or a namespace"),
        Sub("deep", st.tuples(trees(scalars, 1), st.integers(4, 40), st.sampled_from([0, 5, 70]), st.lists(st.text(st.sampled_from("an."), max_size=9), max_size=2), scalars), check_deep, 12, 15, "all"),
        Sub("typed", st.tuples(st.sampled_from(sorted(ALL)), wheres, typical | leaves, st.none() | typical | leaves, st.none() | ranges,
                               st.none() | st.lists(st.sampled_from(["", "a", "b", "RED"]), max_size=3)), check_typed, 6000, 20,
            "an error, an absent parameter, or a restriction or default is given"),
        Sub("enum", st.tuples(st.sampled_from(sorted(ENUMS)), st.sampled_from(["RED", "a", "b", "CRIMSON", "red", "", 1, "name", "__members__", "Color.RED", "Color.a", "Level.a", "Flag.a", "<Color.RED: 1>", "RED ", "1", "Red", "None"]),
                              st.sampled_from(["e", "n.e", "n.x", "x"]), st.none() | st.integers(0, 2)), check_enum, 600, 10, "present or with a default"),
        Sub("one_present", st.tuples(trees(scalars, 1), st.lists(st.sampled_from(["a", "b", "c", "a.b", "b.a", "d"]), max_size=4, unique=True)), check_one_present, 800, 20,
            "not exactly one"),
        Sub("classes", st.tuples(st.sampled_from(sorted(CLASS_NAMES)), st.sampled_from(["v", "n.v"]), st.sampled_from(sorted(CLASS_NAMES)), st.none() | st.sampled_from(sorted(CLASS_NAMES))),
            check_classes, 600, 20, "the value fits, or its class has the name of the one asked for"),
        Sub("sub_namespaces", hashable | trees(scalars, 1, name=st.sampled_from(["2", "1", "10", "9", "01", "b", "a", "B", "-1", "_"])), check_sub_namespaces, 500, 20, "two or more"),
        Sub("nan", st.tuples(st.sampled_from(["v", "n.v"]), st.none() | ranges.filter(lambda r: r[0] not in ("all", "less_than", "at_most")), st.sampled_from([None, 0.5]), st.booleans()),
            check_nan, 60, 2, "with a range"),
        Sub("null", st.tuples(st.lists(st.sampled_from(["a", "b"]), max_size=2), st.sampled_from(["z", "a", "nosuch"]), st.sampled_from(["d", ""])), check_null, 30, 2, "in a namespace"),
        Sub("contained", st.tuples(trees(scalars, 1, 1), st.sampled_from(["list", "dict", "tuple", "deep"]), st.sampled_from([1, 1, 0, 2]), st.sampled_from(["v", "n.v"])),
            check_contained, 60, 10, "one namespace in a container"),
        Sub("deprecated", st.tuples(typical, st.sampled_from(["v", "w"]), st.booleans()), check_deprecated, 200, 5, "all"),
    ],
    assumptions=["only in `null` has a parameter the value None (YAML null), which the code treats as absent"],
    findings=[("sub-namespaces-list", probe_sub_namespaces_with_list, "")],
)
