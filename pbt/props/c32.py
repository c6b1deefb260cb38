"""C32 Names, limited lists, evaluation contexts, identified and scored items."""
import collections
import datetime
import email.mime.text
import enum
import json
import math
import os
import os.path
import sys
import xml.dom.minidom
from pathlib import Path, PurePosixPath

from hypothesis import strategies as st

import vistautils.parameters
import vistautils.range
from core import Prop, Sub, raises, require, same
from vistautils.class_utils import fully_qualified_name, fully_qualified_name_of_type
from vistautils.misc_utils import (
    Scored,
    WithId,
    eval_in_context_of_modules,
    pathify,
    str_list_limited,
    strip_extension,
)


class Celsius(float):
    def __repr__(self):
        return "Celsius(%s)" % float.__repr__(self)

    __str__ = float.__repr__


class Text(str):
    def __repr__(self):
        return "Text()"


class Colour(enum.IntEnum):
    RED = 1


class Thing:
    def __repr__(self):
        return "a thing"

    def __str__(self):
        return "something"


class OwnList(list):
    pass


class ShownList(list):
    def __str__(self):
        return "other"


class ShownDict(dict):
    def __str__(self):
        return "other"


# elements which sets and dictionaries do not take
NESTED = {"<list>": ShownList([1]), "<dict>": ShownDict(a=1), "<empty>": [], "<deep>": [[[]], {"a": [None]}]}


def check_limited(case, ctx):
    xs, limit, shape = case
    if shape not in ("set", "dict"):
        xs = [NESTED.get(x, x) if isinstance(x, str) else x for x in xs]
    arg = {"list": list, "tuple": tuple, "iter": iter, "generator": lambda l: (x for x in l), "dict": lambda l: dict.fromkeys(l), "set": set, "deque": collections.deque, "own": OwnList, "shown": ShownList}[shape](xs)
    if shape == "set":
        xs = list(arg)
    if shape == "dict":
        xs = list(dict.fromkeys(xs))
    if limit < 0:
        ctx.mark(label="negative")
        raises(ValueError, lambda: str_list_limited(arg, limit), "negative limit")
        return
    got = str_list_limited(arg, limit)
    if len(xs) <= limit:
        ctx.label("all")
        same(got, "other" if shape == "shown" else str(list(xs)), "a list within the limit %d" % limit)
    else:
        ctx.mark(limit > 0, "limited")
        shown = str(xs[:limit])[1:-1]
        same(got, "[%s and %d more]" % (shown, len(xs) - limit), "a list beyond the limit %d" % limit)


def check_extension(case, ctx):
    base, ext = case
    ctx.mark("." in base or ext is not None)
    if ext is None:
        if "." not in base:
            same(strip_extension(base), base, "strip_extension without an extension")
        else:
            same(strip_extension(base), base[: base.rfind(".")], "strip_extension(%r)" % base)
    else:
        same(strip_extension(base + "." + ext), base, "strip_extension(%r)" % (base + "." + ext))


class Outer:
    class Inner:
        class Deep:
            pass


def _local():
    class Local:
        pass

    return Local


QUALIFIED = {
    "int": (int, "int"),
    "dict": (dict, "dict"),
    "NoneType": (type(None), "NoneType"),
    "ValueError": (ValueError, "ValueError"),
    "OrderedDict": (collections.OrderedDict, "collections.OrderedDict"),
    "date": (datetime.date, "datetime.date"),
    "JSONDecoder": (json.JSONDecoder, "json.decoder.JSONDecoder"),
    "MIMEText": (email.mime.text.MIMEText, "email.mime.text.MIMEText"),
    "Document": (xml.dom.minidom.Document, "xml.dom.minidom.Document"),
    "Range": (vistautils.range.Range, "vistautils.range.Range"),
    "Builder": (vistautils.range.ImmutableRangeSet.Builder, "vistautils.range.ImmutableRangeSet.Builder"),
    "Parameters": (vistautils.parameters.Parameters, "vistautils.parameters.Parameters"),
    "Inner": (Outer.Inner, __name__ + ".Outer.Inner"),
    "Deep": (Outer.Inner.Deep, __name__ + ".Outer.Inner.Deep"),
    "Local": (_local(), __name__ + "._local.<locals>.Local"),
    "math": (math, "math"),
    "builtins_extra": (type("C", (), {"__module__": "builtins_extra"}), "builtins_extra.C"),
    "my.builtins": (type("C", (), {"__module__": "my.builtins"}), "my.builtins.C"),
    "no module": (type("C", (), {"__module__": None}), "C"),
    "dotted": (type("D", (), {"__module__": "a.b", "__qualname__": "C.D"}), "a.b.C.D"),
    "main": (type("D", (), {"__module__": "__main__"}), "__main__.D"),
    "os.path": (os.path, "posixpath"),
    "xml.dom.minidom": (xml.dom.minidom, "xml.dom.minidom"),
    "vistautils.range": (vistautils.range, "vistautils.range"),
}
OBJECTS = {
    "3": (3, "int"), "'x'": ("x", "str"), "None": (None, "NoneType"), "True": (True, "bool"), "list": ([], "list"),
    "date": (datetime.date(2020, 1, 1), "datetime.date"), "deep": (Outer.Inner.Deep(), __name__ + ".Outer.Inner.Deep"),
    "range": (vistautils.range.Range.all(), "vistautils.range.Range"), "class": (Outer, "type"), "module": (math, "module"),
    "function": (_local, "function"), "generic": (WithId("a", 1), "vistautils.misc_utils.WithId"),
}


def check_qualified(case, ctx):
    kind, name = case
    ctx.mark()
    if kind == "class":
        c, want = QUALIFIED[name]
        same(fully_qualified_name(c), want, "fully_qualified_name of %r" % c)
        if isinstance(c, type) and "." in want and "<" not in want and c.__module__ in sys.modules and c.__module__ != "__main__":
            # the name leads back to the class
            import importlib

            parts = want.split(".")
            for i in range(len(parts) - 1, 0, -1):
                try:
                    obj = importlib.import_module(".".join(parts[:i]))
                except ImportError:
                    continue
                for p in parts[i:]:
                    obj = getattr(obj, p)
                require(obj is c, "the name does not lead to the class", want)
                break
    else:
        o, want = OBJECTS[name]
        same(fully_qualified_name_of_type(o), want, "fully_qualified_name_of_type of %r" % (o,))


EXPRS = [
    # expression, modules, value, type
    ("1 + x", (), lambda x: 1 + x, int),
    ("str(x)", (), str, str),
    ("math.floor(x + 0.5)", ("math",), lambda x: math.floor(x + 0.5), int),
    ("os.path.join('a', str(x))", ("os.path",), lambda x: "a/%s" % x, str),
    ("os.path.join('a', 'b.c')", ("os",), lambda x: "a/b.c", str),
    ("vistautils.range.Range.closed(x, x)", ("vistautils.range",), lambda x: vistautils.range.Range.closed(x, x), vistautils.range.Range),
    ("xml.dom.minidom.Node.TEXT_NODE", ("xml.dom.minidom",), lambda x: 3, int),
    ("[x, fractions.Fraction(1, 2)]", ("math", "fractions"), lambda x: [x, __import__("fractions").Fraction(1, 2)], list),
    ("x == 3", (), lambda x: x == 3, bool),
    ("callable(breakpoint) and callable(open) and callable(__import__) and callable(eval) and callable(input) and callable(exit)", (), lambda x: True, bool),
    ("[type(f).__name__ for f in (print, len, compile, globals, vars, exec)]", (), lambda x: ["builtin_function_or_method"] * 6, list),
    ("['a  b',\n 'c \t d', x]", (), lambda x: ["a  b", "c \t d", x], list),
    ("(\'\'\'two\n  lines  \'\'\'\n + str(x))", (), lambda x: "two\n  lines  %s" % x, str),
    ("x # a remark", (), lambda x: x, int),
    (" x ", (), lambda x: x, int),
    ("(lambda y: [x + y for _ in range(2)])(1)", (), lambda x: [x + 1] * 2, list),
    ("sorted({str(x): x, 'a;b': math.pi})", ("math",), lambda x: sorted([str(x), "a;b"]), list),
    ("(y := x + 1)", (), lambda x: x + 1, int),
    ("'__builtins__' in globals() and 'x' in globals()", (), lambda x: True, bool),
]


def check_eval(case, ctx):
    i, x, wrong, extra = case
    expr, modules, want, typ = EXPRS[i]
    context = {"x": x, "unused": [1]}
    if extra:
        # a name of the caller wins over a module
        context["unused2"] = 5
    before = dict(context)
    ctx.mark(bool(modules) or wrong)
    if wrong:
        bad = bytes if typ is not bytes else str
        raises(TypeError, lambda: eval_in_context_of_modules(expr, context, context_modules=modules, expected_type=bad), "%r as %r" % (expr, bad))
    else:
        got = eval_in_context_of_modules(expr, context, context_modules=modules, expected_type=typ)
        same(got, want(x), "value of %r" % expr)
        same(
            eval_in_context_of_modules(expr, context, context_modules=list(modules), expected_type=object), want(x), "value of %r" % expr
        )
    same(context, before, "the caller's context after the evaluation")
    raises(NameError, lambda: eval_in_context_of_modules("undefined_name", context, context_modules=(), expected_type=int), "unknown name")


fresh_packages = [0]


def check_fresh_packages(case, ctx):
    """Packages made for the case, none of whose modules was imported yet."""
    import importlib
    import shutil
    import sys

    first, wanted, in_context, own_builtins = case
    fresh_packages[0] += 1
    name = "vtfresh%d_%d" % (os.getpid(), fresh_packages[0])
    root = os.path.join(ctx.tmp(), "path")
    for d, text in (("", "value = 1"), ("/sub", "value = 2"), ("/sub/deep", "value = 3"), ("/other", "value = 4")):
        os.makedirs(root + "/" + name + d)
        with open(root + "/" + name + d + "/__init__.py", "w") as f:
            f.write(text + "\n")
    ctx.mark(in_context or len(wanted) > 1)
    values = {"": 1, ".sub": 2, ".sub.deep": 3, ".other": 4}
    sys.path.insert(0, root)
    importlib.invalidate_caches()
    try:
        context = {"x": 5}
        if in_context:
            context[name] = importlib.import_module(name)
        if own_builtins:
            context["__builtins__"] = {"list": list}
        if first:
            importlib.import_module(name + first)
        before = dict(context)
        modules = [name + w for w in wanted]
        expr = "[%s, x]" % ", ".join("%s.value" % m for m in modules)
        same(eval_in_context_of_modules(expr, context, context_modules=modules, expected_type=list),
             [values[w] for w in wanted] + [5], "values of modules %s" % (wanted,))
        same(sorted(context), sorted(before), "names in the caller's context")
        # names bound by the expression stay within it
        same(eval_in_context_of_modules("[(y := x), (x := y + 1), y, x]", context, context_modules=modules, expected_type=list), [5, 6, 5, 6], "an expression which binds names")
        require(sorted(context) == sorted(before) and all(context[k] is before[k] for k in before), "the caller's context after the evaluation", sorted(context))
        raises(ImportError, lambda: eval_in_context_of_modules("1", context, context_modules=[name + ".nosuch"], expected_type=int), "a module which does not exist")
        require(sorted(context) == sorted(before), "the caller's context after a failure", sorted(context))
    finally:
        sys.path.remove(root)
        for m in [m for m in sys.modules if m == name or m.startswith(name + ".")]:
            del sys.modules[m]
        shutil.rmtree(root)


def check_shadow(case, ctx):
    ctx.mark()
    context = {"math": case}
    same(
        eval_in_context_of_modules("math", context, context_modules=["math"], expected_type=object), case,
        "a context entry with the name of a module",
    )


def check_items(case, ctx):
    id_, item, score = case
    bad = not isinstance(id_, str) or not id_ or item is None
    ctx.mark(bad or not item, "refused" if bad else "accepted")
    if bad:
        raises((ValueError, TypeError), lambda: WithId(id_, item), "WithId(%r, %r)" % (id_, item))
    else:
        w = WithId(id_, item)
        require(w.item is item, "the item", w.item)
        same(w.id, id_, "the ID")
        require(w == WithId(id_, item) and w != WithId(id_ + "x", item) and (item is LIKE_ANYTHING or w != WithId(id_, "other item")), "equality of items with IDs")
        raises(AttributeError, lambda: setattr(w, "id", "y"), "assigning to a frozen item")
    if isinstance(score, float) and item is not None:
        s = Scored(item, score)
        require(s.item is item and (s.score is score), "fields of a scored item")
        require((item is LIKE_ANYTHING or s != Scored("other item", score)) and s != Scored(item, 0.25), "equality of scored items")
        require(math.isnan(score) or s == Scored(item, score), "equality of scored items")
        raises(AttributeError, lambda: setattr(s, "score", 1.0), "assigning to a frozen item")
    else:
        raises((ValueError, TypeError), lambda: Scored(item, score), "Scored(%r, %r)" % (item, score))


def check_pathify(case, ctx):
    ctx.mark("/" in case)
    p = Path(case)
    require(pathify(p) is p, "pathify of a path is another object")
    got = pathify(case)
    same(got, Path(case), "pathify(%r)" % case)
    require(isinstance(got, Path), "pathify does not give a path")


def check_long(case, ctx):
    """Very long lists."""
    n, limit, shape = case
    check_limited((list(range(n)), limit, shape), ctx)
    ctx.mark(n > 999)


class LikeAnything:
    def __eq__(self, other):
        return True

    def __repr__(self):
        return "LikeAnything()"

    __hash__ = None


class LikeNothing:
    """Equal to None, and false."""

    def __eq__(self, other):
        return other is None or other is self

    def __bool__(self):
        return False

    def __repr__(self):
        return "LikeNothing()"

    __hash__ = None


LIKE_ANYTHING, LIKE_NOTHING = LikeAnything(), LikeNothing()
THING = Thing()
elems = st.one_of(st.integers(-3, 10 ** 6), st.sampled_from(["a", "it's", "", None, 0.5, "caf\u00e9", (1,), b"x", " and 3 more", "<list>", "<dict>", "<empty>", "<deep>", Celsius(1.5), Text("t"), Colour.RED, THING, -0.0, 1e300, True, datetime.date(2020, 1, 1), int]))
names = st.text(st.sampled_from("ab.-_ /\u00e9"), max_size=8)

PROP = Prop(
    "C32",
    [
        Sub("limited", st.tuples(st.lists(elems, max_size=14), st.integers(-2, 15), st.sampled_from(["list", "tuple", "iter", "generator", "dict", "set", "deque", "own", "shown"])),
            check_limited, 2500, 20, "a limit which is exceeded but not zero, or a negative one"),
        Sub("long", st.tuples(st.sampled_from([100, 999, 1000, 1001, 2000, 12345]), st.sampled_from([0, 1, 10, 99, 100, 999, 1000]), st.sampled_from(["list", "tuple", "generator", "own"])), check_long, 60, 10, "a thousand elements or more"),
        Sub("extension", st.tuples(names, st.none() | st.text(st.sampled_from("abtgz0 -"), max_size=5)), check_extension, 2000, 20, "with a dot"),
        Sub("qualified", st.tuples(st.just("class"), st.sampled_from(sorted(QUALIFIED))) | st.tuples(st.just("object"), st.sampled_from(sorted(OBJECTS))),
            check_qualified, 200, 2, "all"),
        Sub("eval", st.tuples(st.integers(0, len(EXPRS) - 1), st.integers(-4, 4), st.booleans(), st.booleans()), check_eval, 600, 5, "modules, or a type which does not fit"),
        Sub("fresh packages", st.tuples(st.sampled_from(["", "", ".sub", ".other"]),
                                        st.lists(st.sampled_from(["", ".sub", ".sub.deep", ".other"]), min_size=1, max_size=3, unique=True).map(tuple), st.booleans(), st.booleans()),
            check_fresh_packages, 200, 5, "several modules, or a package which the context has"),
        Sub("shadow", st.integers(0, 3) | st.sampled_from(["", None, "m"]), check_shadow, 20, 1, "all"),
        Sub("items", st.tuples(st.sampled_from(["id", "a", "", " ", 3, None, b"x"]), st.sampled_from([0, 1, "", "x", None, (), False, WithId("b", 1), Scored("x", 0.5), Path("a"), int, [1], {}, LIKE_ANYTHING, LIKE_NOTHING]),
                               st.sampled_from([0.0, 1.5, -1.0, 1, "0.5", None, True, float("inf"), float("nan"), -0.0, -float("inf"), 5e-324])), check_items, 800, 5, "refused, or a false item"),
        Sub("pathify", st.text(st.sampled_from("ab./ \u00e9"), min_size=1, max_size=8), check_pathify, 400, 5, "with a separator"),
    ],
)
