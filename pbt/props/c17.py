"""C17 Evaluated parameters: the value, the factory or the default that was asked for, else an error."""
import builtins
import importlib
import importlib.machinery
import sys

from hypothesis import strategies as st

from core import Prop, Sub, fail, raises, require, same, same_typed
from props.paramgen import make, same_tree
from vistautils.parameters import ParameterError, Parameters

M = "vtpkg.sub.mod"

# expression -> (what it needs: "" nothing, "ctx" the context, "auto" imports that follow from the
# name alone, a module name: needs an import of it; its value as an expression here)
VALUES = {
    "1 + 2": ("", 3),
    "0": ("", 0),
    "''": ("", ""),
    "[1, 'a']": ("", [1, "a"]),
    "1.5": ("", 1.5),
    "2 * 0.25": ("", 0.5),
    "'x.y'": ("", "x.y"),
    "'one. two'.split('.')": ("", ["one", " two"]),
    "{'k': (1, None)}": ("", {"k": (1, None)}),
    "None": ("", None),
    "(lambda v: v * 2)(4)": ("", 8),
    "[i for i in range(3)]": ("", [0, 1, 2]),
    "local": ("ctx", 40),
    "local + len(words)": ("ctx", 42),
    "[w + str(local) for w in words]": ("ctx", ["a40", "b40"]),
    "words.index('b')": ("error auto", 1),
    "vtpkg.CONST": ("auto vtpkg", 17),
    "vtpkg.sub.NAME": ("auto vtpkg.sub", "sub"),
    "vtpkg.sub.EMPTY": ("auto vtpkg.sub", ""),
    "vtpkg.sub.mod.LIST": ("auto " + M, [1, "a"]),
    "vtpkg.flag()": ("auto vtpkg", False),
    "vtpkg._inner.NAME": ("auto vtpkg._inner", "inner"),
    "vtpkg._inner.Mod_2x.VALUE": ("auto vtpkg._inner.Mod_2x", ["hidden"]),
    "len(vtpkg._inner.Mod_2x.VALUE)": ("vtpkg._inner.Mod_2x", 1),
    "len(vtpkg.sub.mod.LIST)": (M, 2),
    "[vtpkg.CONST, vtpkg.sub.NAME]": ("vtpkg.sub", [17, "sub"]),
    "(nosuchname := 5) + 1": ("", 6),
    "(fresh_name := local) + 1": ("ctx", 41),
    "1 +": ("error", None),
    "namespace_param_name": ("error ctx", None),
    "[name, expected_type, special_values]": ("error ctx", None),
    "self": ("error ctx", None),
    "nosuchname": ("error", None),
    "vtpkg.sub.nosuch": ("error", None),
    "nosuchpackage.thing": ("error", None),
    "1 // 0": ("error", None),
    "": ("error", None),
}
FACTORIES = {
    M + ".make": "make",
    M + ".make_int": "int",
    M + ".make_falsy": "falsy",
    M + ".WithStatic": "WithStatic",
    M + ".WithClassMethod": "WithClassMethod",
    M + ".Inherits": "WithClassMethod",
    M + ".Plain": "Plain",
    M + ".INSTANCE": "instance",
    M + ".ADORNED": "instance",
    M + ".adorned": "make",
    M + ".NOT_CALLABLE": "error",
    M + ".failing": "error",
    M + ".nosuch": "error",
}
TYPES = {"object": object, "int": int, "str": str, "list": list, "Rec": None, "float": float, "bool": bool}
# some have the names of modules to be imported below packages
CONTEXT = {"local": 40, "words": ["a", "b"], "sub": 1, "mod": "m"}
ERROR = object()


def make_context(use):
    """None, the plain context, or one which has served in an evaluation before (it has the builtins)."""
    if not use:
        return None
    context = dict(CONTEXT)
    if use == "builtins":
        context["__builtins__"] = builtins
    return context


def check_context(context, use, what):
    want = dict(CONTEXT, **({"__builtins__": builtins} if use == "builtins" else {}))
    require(sorted(context) == sorted(want) and all(context[k] is want[k] or context[k] == want[k] for k in want),
            what, sorted(set(context) ^ set(want)))


def nothing_leaked(what):
    """Names bound by an expression are gone afterwards."""
    raises(ParameterError, lambda: Parameters.from_mapping({"p": "nosuchname"}).evaluate("p", object), what + ": evaluate of an unknown name")
    raises(Exception, lambda: Parameters.from_mapping({"p": "nosuchname"}).object_from_parameters("p", object),
           what + ": object_from_parameters of an unknown name")


def fresh():
    """The package as if nobody had imported it yet."""
    for name in [n for n in sys.modules if n == "vtpkg" or n.startswith("vtpkg.")]:
        del sys.modules[name]
    if importlib.util.find_spec("vtpkg") is None:
        fail("harness: vtpkg is not importable")


def mod():
    return importlib.import_module(M)


def outcome(expression, imports, context, auto):
    """ERROR, or the value; None when the documentation leaves it open."""
    needs, value = VALUES[expression]
    if needs == "error":
        return ERROR
    if needs == "error ctx":
        # names of the code which evaluates are not those of the context
        return ERROR if context else None
    if needs in ("ctx", "error auto"):
        if needs == "error auto" and auto:
            # looks like a qualified name, so "words" is taken for a package
            return None
        return value if context else None
    if needs.startswith("auto "):
        if auto:
            return ("v", value)
        needs = needs[5:]
    if needs == "":
        return ("v", value)
    if any(m == needs or m.startswith(needs + ".") for m in imports or ()):
        return ("v", value)
    return None


def wrap(x):
    return x if x is ERROR or x is None or isinstance(x, tuple) else ("v", x)


def nest(path, tree):
    for part in reversed(path):
        tree = {part: tree}
    return tree


def where(params, path, dotted):
    if dotted:
        return params, path
    for part in path:
        params = params.namespace(part)
    return params, ()


def error_of(fn, what):
    return raises(Exception, fn, what)


def check_value(got_fn, expected, kind, what):
    """expected: ERROR, None (open) or ("v", value)."""
    if expected is None:
        try:
            got_fn()
        except Exception:  # noqa
            pass
        return
    if expected is ERROR or not isinstance(expected[1], kind):
        error_of(got_fn, what)
        return
    same_typed(got_fn(), expected[1], what)


# keys of special values, which may look like something else
KEYS = ["short", "true", "None", "1", "short", " a ", "0", "not an expression!", "if", "l1\nl2", "false", "null", "-", "(", "'q'"]


def near_misses(text, value):
    """Special values for texts which are nearly this one."""
    keys = ["short", text + " ", " " + text, text.upper(), text.lower(), text.swapcase(), text.title(), text[:-1], text[1:], repr(text), "(%s)" % text, text + "\n", "%" + text + "%"]
    return {k: value for k in keys if k != text}


def check_evaluate(case, ctx):
    path, form, expression, imports, use_context, special, tname, value_name, default, optional, extra = case
    fresh()
    context = make_context(use_context)
    kind = TYPES[tname] or mod().Rec
    fresh()
    # a key of the special values stands for its expression
    specials, written = {}, expression
    key = KEYS[(len(expression) + 3 * len(path) + 5 * len(extra)) % len(KEYS)]
    if key == expression:
        key = "short"
    if special == "used":
        specials, written = {key: expression, "other": "1 // 0"}, key
    elif special == "chained":
        # what replaces it is not looked up again
        specials, written = {key: expression, expression: "1 // 0"}, key
    elif special == "unused":
        specials = near_misses(expression, "1 // 0")
    leaf = {}
    if form == "string":
        leaf = {"param": written}
    elif form == "namespace":
        leaf = {"param": dict(extra, **{value_name: written})}
        if imports is not None:
            leaf["param"]["import"] = imports
    elif form == "namespace without value":
        leaf = {"param": dict(extra, nothing="1")}
    elif form == "not a string":
        leaf = {"param": 17}
    tree = nest(path, dict(leaf, unrelated="1 // 0"))
    params = make(tree)
    dotted = bool(path) and (len(expression) + len(extra)) % 3 == 0
    here, before = where(params, path, dotted)
    name = ".".join(tuple(before) + ("param",))
    kwargs = {}
    if context is not None:
        kwargs["context"] = context
    if value_name != "value":
        kwargs["namespace_param_name"] = value_name
    if specials:
        kwargs["special_values"] = specials
    if optional:
        kwargs.pop("context", None)
    elif default is not None:
        kwargs["default"] = default
    method = here.optional_evaluate if optional else here.evaluate
    ctx.label("form " + form, "special " + special, "type " + tname)
    fn = lambda: method(name, kind, **kwargs)  # noqa
    if form == "absent":
        if optional:
            require(fn() is None, "optional_evaluate of an absent parameter", case)
        elif default is not None:
            ctx.mark(label="default")
            require(fn() is default, "the default of evaluate", case)
        else:
            raises(ParameterError, fn, "evaluate of an absent parameter")
    elif form in ("namespace without value", "not a string"):
        ctx.mark()
        raises(ParameterError, fn, "evaluate of " + form)
    else:
        used_imports = imports if form == "namespace" else None
        auto = form == "string" and special not in ("used", "chained")
        expected = wrap(outcome(expression, used_imports, use_context and not optional, auto))
        if form == "namespace" and not imports and context and not optional and not VALUES[expression][0].startswith("error") and "vtpkg" in expression:
            # only what is asked for is imported
            expected = ERROR
            ctx.mark()
        if special in ("used", "chained") and expected is ERROR and "vtpkg" in expression:
            expected = ERROR
        ctx.mark(expected is not None and expected is not ERROR, "evaluated")
        if expected is not None and (expected is ERROR or not isinstance(expected[1], kind)):
            ctx.label("refused")
            raises(ParameterError, fn, "evaluate of %r as %s" % (expression, tname))
        else:
            check_value(fn, expected, kind, "evaluate of %r" % expression)
    same_tree(params, tree, "parameters after evaluate")
    if context is not None:
        check_context(context, use_context, "the context after evaluate")
    if ":=" in expression:
        nothing_leaked("after evaluate")


def made_by(how, obj, namespace_tree, prefix, what):
    """Compare a made object with what its factory makes from these parameters."""
    require(isinstance(obj, mod().Rec), what + ": not the product of the factory", obj, how)
    same(obj.how, how, what + ": which factory was applied")
    if how == "Plain":
        require(obj.params is None, what)
        return
    require(isinstance(obj.params, Parameters), what + ": the factory's argument", obj.params)
    same_tree(obj.params, namespace_tree, what + ": parameters given to the factory")
    same(".".join(obj.params.namespace_prefix), ".".join(prefix), what + ": prefix of the parameters given to the factory")


def apply_model(how, namespace_tree):
    if how == "error":
        return ERROR
    if how == "int":
        return ("v", namespace_tree["n"]) if isinstance(namespace_tree.get("n"), int) else ERROR
    if how == "falsy":
        return ("v", [])
    return ("made", how)


def default_factory_of(kind):
    m = mod()
    return {
        "make": m.make, "int": m.make_int, "falsy": m.make_falsy, "WithStatic": m.WithStatic,
        "WithClassMethod": m.Inherits, "Plain": m.Plain, "instance": m.INSTANCE, "error": m.NOT_CALLABLE,
    }[kind]


def check_object(case, ctx):
    (path, form, value, factory, imports, use_context, special, specials_kind, tname, names, default_value,
     default_factory, extra) = case
    fresh()
    context = make_context(use_context)
    kind = TYPES[tname] or mod().Rec
    value_name, factory_name = names
    keep = mod()
    kwargs = {}
    if names != ("value", "factory"):
        kwargs.update(value_namespace_param_name=value_name, factory_namespace_param_name=factory_name)
    special_object = {"list": [7], "falsy": 0, "str": "1 // 0", "obj": keep.INSTANCE}[specials_kind]
    special_values, special_factories = {}, {}
    written_value, written_factory = value, factory
    key = KEYS[(len(value) + len(factory) + 3 * len(path) + 5 * len(extra)) % len(KEYS)]
    if special == "value":
        if form != "string" and isinstance(special_object, str):
            special_object = [7]
        written_value = key
        special_values = {key: special_object, "nope": 5}
        special_factories = {"nope": keep.failing, "other": keep.failing}
    elif special == "factory":
        written_factory = key
        special_factories = {key: default_factory_of(FACTORIES[factory]), "nope": keep.failing}
        special_values = {"nope": 5, "Short": 6}
    elif special == "unused":
        special_values = near_misses(value, 5)
        special_factories = {"Short": keep.failing, factory + "x": keep.failing}
        if form == "string":
            special_factories.update(near_misses(value, keep.failing))
    if special_values:
        kwargs.update(special_values=special_values, special_factories=special_factories)
    if default_value is not None:
        kwargs["default_value"] = default_value
    if default_factory is not None:
        kwargs["default_factory"] = default_factory_of(default_factory)
    if context is not None:
        kwargs["context"] = context

    namespace_tree = dict(extra)
    if imports is not None:
        namespace_tree["import"] = imports
    if form in ("value", "both"):
        namespace_tree[value_name] = written_value
    if form in ("factory", "both"):
        namespace_tree[factory_name] = written_factory
    if form == "string":
        leaf = {"param": written_value if special != "factory" else written_factory}
    elif form == "absent":
        leaf = {}
    elif form == "not a string":
        leaf = {"param": 5}
    else:
        leaf = {"param": namespace_tree}
    tree = nest(path, dict(leaf, unrelated={"value": "1 // 0"}, q="1 // 0"))
    params = make(tree)
    # by its name within its namespace, or by its whole name
    here, before = where(params, path, (len(value) + len(extra)) % 3 == 0)
    name = ".".join(tuple(before) + ("param",))
    prefix = tuple(path) + ("param",)
    ctx.label("form " + form, "special " + special)

    def defaults(received):
        if default_value is not None:
            return ("v", default_value)
        if default_factory is not None:
            return apply_model(default_factory, received)
        return ERROR

    received = namespace_tree
    if form == "absent":
        received = {}
        expected = defaults(received)
    elif form == "not a string":
        expected = ERROR
    elif form == "string":
        received = {}
        if special == "value":
            expected = ("v", special_object)
        elif special == "factory":
            expected = apply_model(FACTORIES[factory], received)
        else:
            expected = wrap(outcome(value, None, use_context, True))
    elif form == "both":
        expected = ERROR
    elif form == "neither":
        expected = defaults(received)
    elif form == "value":
        if special == "value":
            expected = ("v", special_object)
        else:
            expected = wrap(outcome(value, imports, use_context, False))
    else:
        if special == "factory":
            expected = apply_model(FACTORIES[factory], received)
        elif FACTORIES[factory] == "error":
            expected = ERROR
        elif any(i == M for i in imports or ()):
            expected = apply_model(FACTORIES[factory], received)
        else:
            expected = None
    keep = None
    if special not in ("factory", "value") and default_factory is None:
        # what is imported must be imported by the code
        if tname != "Rec":
            fresh()
    fn = lambda: here.object_from_parameters(name, kind, **kwargs)  # noqa
    if expected is None:
        ctx.label("open")
        try:
            fn()
        except Exception:  # noqa
            pass
    elif expected is ERROR:
        ctx.label("refused")
        ctx.mark(form in ("both", "neither"), "both or neither")
        error_of(fn, "object_from_parameters of %s" % form)
    elif expected[0] == "v":
        ctx.mark(label="value")
        if isinstance(expected[1], kind):
            same_typed(fn(), expected[1], "object_from_parameters of %s" % form)
        else:
            ctx.label("wrong type")
            error_of(fn, "object_from_parameters of the wrong type")
    else:
        ctx.mark(label="made by a factory")
        if kind in (object,) or tname == "Rec":
            first, second = fn(), fn()
            made_by(expected[1], first, received, prefix, "object_from_parameters of %s" % form)
            made_by(expected[1], second, received, prefix, "object_from_parameters of %s, once more" % form)
            require(first is not second, "a factory was asked twice, but gave one object", first)
        else:
            ctx.label("wrong type")
            error_of(fn, "object_from_parameters of the wrong type")
    same_tree(params, tree, "parameters after object_from_parameters")
    if context is not None:
        check_context(context, use_context, "the context after object_from_parameters")
    if ":=" in value:
        nothing_leaked("after object_from_parameters")


class Recorder:
    """Finds modules which are nowhere but here, and notes the order in which they are made."""

    def __init__(self, names):
        self.names, self.made = names, []

    def find_spec(self, name, path=None, target=None):
        if name in self.names:
            return importlib.machinery.ModuleSpec(name, self, is_package=any(n.startswith(name + ".") for n in self.names))
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        self.made.append(module.__name__)
        module.x = len(self.made)
        module.name = module.__name__


def check_imports(case, ctx):
    """Modules are imported in the order given, packages before what is in them, whatever their names."""
    form, wanted, again = case
    every = {".".join(w.split(".")[: i + 1]) for w in wanted for i in range(w.count(".") + 1)}
    recorder = Recorder(every)
    sys.meta_path.insert(0, recorder)
    try:
        if form == "namespace":
            tree = {"p": {"value": "[%s]" % ", ".join(w + ".name" for w in wanted), "import": list(wanted) + list(wanted[:again])}}
            want, order = list(wanted), []
            for w in wanted:
                order.extend(q for q in (".".join(w.split(".")[: i + 1]) for i in range(w.count(".") + 1)) if q not in order)
        else:
            tree = {"p": wanted[0] + ".name"}
            want = wanted[0]
            order = [".".join(want.split(".")[: i + 1]) for i in range(want.count(".") + 1)]
        ctx.mark(len(order) > 1)
        got = make(tree).evaluate("p", object) if again % 2 == 0 else make(tree).object_from_parameters("p", object)
        same(got, want, "evaluated with imports of %s" % (wanted,))
        same(recorder.made, order, "modules imported, in their order")
    finally:
        sys.meta_path.remove(recorder)
        for name in every:
            sys.modules.pop(name, None)


paths = st.lists(st.sampled_from(["N", "M", "a"]), max_size=2)
imports = st.sampled_from([None, [], ["vtpkg"], ["vtpkg.sub"], [M], [M, "vtpkg"], ["math", M], ["vtpkg._inner.Mod_2x"]]) | st.just([M])
extra = st.dictionaries(st.sampled_from(["n", "s", "deep"]), st.sampled_from([0, 5, "x", {"n": 1}]), max_size=3)
tnames = st.sampled_from(["object", "object", "object", "object"] + sorted(TYPES))

contexts = st.sampled_from([False, False, True, "builtins"])
evaluate_cases = st.tuples(
    paths,
    st.sampled_from(["string", "string", "namespace", "namespace", "absent", "namespace without value", "not a string"]),
    st.sampled_from(sorted(VALUES)),
    imports,
    contexts,
    st.sampled_from(["none", "none", "used", "unused", "chained"]),
    tnames,
    st.sampled_from(["value", "value", "expr"]),
    st.sampled_from([None, None, 0, 5, "", [1]]),
    st.booleans(),
    extra,
)
object_cases = st.tuples(
    paths,
    st.sampled_from(["string", "string", "value", "value", "factory", "factory", "factory", "both", "neither", "absent", "not a string"]),
    st.sampled_from(sorted(VALUES)),
    st.sampled_from(sorted(FACTORIES)),
    imports,
    contexts,
    st.sampled_from(["none", "none", "value", "factory", "unused"]),
    st.sampled_from(["list", "falsy", "str", "obj"]),
    st.sampled_from(["object", "object", "object", "Rec"] + sorted(TYPES)),
    st.sampled_from([("value", "factory"), ("value", "factory"), ("v", "f")]),
    st.sampled_from([None, None, None, 0, "", 5, [1]]),
    st.sampled_from([None, None, "make", "int", "falsy", "WithStatic", "WithClassMethod", "Plain", "instance", "error"]),
    extra,
)

bare_cases = st.tuples(
    paths,
    st.sampled_from(["neither", "neither", "absent", "value", "factory"]),
    st.sampled_from(sorted(VALUES)),
    st.sampled_from(sorted(FACTORIES)),
    st.sampled_from([None, None, []]),
    contexts,
    st.just("none"),
    st.just("list"),
    st.sampled_from(sorted(TYPES)),
    st.sampled_from([("value", "factory"), ("v", "f")]),
    st.sampled_from([None, 0, "", 5, [1], "5", 2.5, True]),
    st.sampled_from([None, "make", "int", "falsy", "Plain", "error"]),
    st.just({}),
)

PROP = Prop(
    "C17",
    [
        Sub("evaluate", evaluate_cases, check_evaluate, quick=1500, thorough=30,
            rule="an expression gives a value, a default is used, or a form without value is refused"),
        Sub("object", object_cases, check_object, quick=2500, thorough=30,
            rule="a value is found, a factory applied, or both or neither of them given"),
        Sub("not_imported", st.tuples(paths, st.just("namespace"), st.sampled_from(sorted(v for v in VALUES if "vtpkg" in v)), st.sampled_from([None, []]), st.sampled_from([True, "builtins"]),
                                      st.sampled_from(["none", "used", "unused"]), st.just("object"), st.sampled_from(["value", "expr"]), st.none(), st.just(False), extra), check_evaluate, quick=60, thorough=20,
            rule="a module is needed which nothing imports"),
        Sub("imports", st.tuples(st.sampled_from(["namespace", "namespace", "name"]), st.lists(st.sampled_from(
                ["vtz", "vta", "vt_\u00e9", "vtp.b", "vtp.a", "vtp.a.deep.er", "_vt", "vtm1", "VT", "vtp", "vt\u4e2d.\u00df"]), min_size=1, max_size=5, unique=True).map(tuple), st.integers(0, 2)), check_imports, quick=150, thorough=20,
            rule="two modules or more"),
        Sub("bare", bare_cases, check_object, quick=1000, thorough=30,
            rule="a value is found, a factory applied, or both or neither of them given"),
    ],
    assumptions=[
        "left open (either an error or the value): qualified names in namespaces which are not imported, and special values which are qualified names",
        "special values which are strings are used only as the parameter itself, not within a namespace",
    ],
)
