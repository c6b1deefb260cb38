"""C13 Parameters written as YAML are the same parameters when loaded again."""
import enum
import os
from pathlib import Path

from hypothesis import strategies as st

from core import Prop, Sub, raises, require, same
from props.paramgen import exactly, same_tree
from vistautils.io_utils import CharSink
from vistautils.parameters import Parameters, YAMLParametersLoader, YAMLParametersWriter

AWKWARD = [
    "", " ", "yes", "no", "on", "off", "y", "n", "true", "False", "null", "~", "None", "1", "1.0", "1e5", "0x1F", "0o7", "017", "1_000", "12:30:45",
    "2001-01-01", "2001-12-14t21:59:43.10-05:00", ".inf", ".nan", "-", "- a", "a: b", "a #b", "#", ":", "?", "? a", "{}", "[]", "{a: 1}", "[1", "'", '"', "''", "it's",
    "\\", "\\n", "a\\b", "|", ">", "|-", "&a", "*a", "!", "!!int 3", "%", "% a %", "100%", "@", "`", "<<", "=", "---", "...", "--- a", "\n", "a\n", "\na", "a\nb", "a\n\nb", "a\n ", " a", "a ", "  a\n b",
    "\t", "a\tb", "\ttab", "\u00e9", "\u4e2d\u6587", "\U0001f600", "\u00a0", "\u2028", "\u2029", "\x85", "\x00", "\x07", "\x1b", "\x7f", "\ufeff", "a\ufeff", "\r", "a\r\nb", "a\rb",
    "word " * 30, "x" * 200, "word " * 20 + "\n" + "word " * 20, " " * 100, "a  b   c " * 20, "key: value " * 12, "\u00e9 " * 60, "'quoted' " * 20, "C:\\dir\\", "http://x/y?z=1#w",
    "a, b", "[a, b]", "a:", ":a", "-a", "-1", "+1", "1.", ".5", "1e", "e1", "\"a\"", "a\"b",
]
text = st.sampled_from(AWKWARD) | st.text(st.characters(blacklist_categories=["Cs"], blacklist_characters="%"), max_size=12) | st.text(
    st.sampled_from("ab \n:#-'\"{}[],&*!|>?@`\\\t"), max_size=14)
key_text = (st.sampled_from(AWKWARD) | st.text(st.characters(blacklist_categories=["Cs"]), max_size=8)).filter(
    lambda k: "." not in k and k != "_includes")
keys = st.sampled_from(["a", "b", "c", "d"]) | key_text
scalars = (
    st.integers()
    | st.booleans()
    | st.floats(allow_nan=False)
    | text
    | st.sampled_from([0, 1, -1, 0.0, -0.0, 1e300, 1e-300, 1e16, 1e22, 123456789.123, float("inf"), float("-inf"), 10 ** 40])
)
paths = st.sampled_from([("path", "a/b"), ("path", "/x y/z.txt"), ("path", "."), ("path", "1"), ("path", "true"), ("path", "a:b")]) | st.sampled_from(["~/x", "~", "~root", "$HOME/x", "../a", "//a", "/", "a/../b", "x", "%a", "-", "null", "a\\b", " a"]).map(lambda p: ("path", p))
leaf = st.recursive(
    scalars | paths,
    lambda x: st.lists(x, max_size=3) | st.lists(x, max_size=3).map(lambda l: ("tuple", l)) | st.dictionaries(keys, x, max_size=3).map(lambda d: ("dict", d)),
    max_leaves=6,
).map(lambda x: ("inlist", x) if isinstance(x, tuple) and x[0] == "dict" else x)


def value(x):
    """The value put into the parameters."""
    if isinstance(x, tuple):
        if x[0] == "path":
            return Path(x[1])
        if x[0] == "tuple":
            return tuple(value(y) for y in x[1])
        if x[0] == "dict":
            return {k: value(y) for k, y in x[1].items()}
        return [value(x[1])]
    if isinstance(x, list):
        return [value(y) for y in x]
    return x


def loaded(x):
    """The value expected from loading it."""
    if isinstance(x, tuple):
        if x[0] == "path":
            return str(Path(x[1]))
        if x[0] == "tuple":
            return [loaded(y) for y in x[1]]
        if x[0] == "dict":
            return {k: loaded(y) for k, y in x[1].items()}
        return [loaded(x[1])]
    if isinstance(x, list):
        return [loaded(y) for y in x]
    return x


def over(tree, f):
    return {k: over(v, f) if isinstance(v, dict) else f(v) for k, v in tree.items()}


def nested(depth):
    if depth == 0:
        return st.dictionaries(keys, leaf, max_size=4)
    return st.dictionaries(keys, leaf | nested(depth - 1).map(lambda x: x), max_size=4)


def check(case, ctx):
    tree, how, env = case
    p = Parameters.from_mapping(over(tree, value))
    before = p.as_nested_dicts()
    want = over(tree, loaded)
    loader = YAMLParametersLoader(interpolate_environmental_variables=env)
    ctx.mark(bool(tree), how)
    if how == "str":
        back = loader.load_string(str(p))
    elif how == "string sink":
        sink = CharSink.to_string()
        YAMLParametersWriter().write(p, sink)
        back = loader.load_string(sink.last_string_written)
    else:
        path = Path(ctx.tmp()) / "sub" / "p.params"
        if how == "path":
            YAMLParametersWriter().write(p, path)
            back = loader.load(path)
        elif how == "name":
            YAMLParametersWriter().write(p, str(path))
            back = loader.load(str(path))
        else:
            YAMLParametersWriter().write(Parameters.from_mapping({"longer": "x" * 5000}), path)
            YAMLParametersWriter().write(p, CharSink.to_file(path))
            back = loader.load(path)
    same_tree(back, want, "loaded again")
    same([k for k in back.as_nested_dicts()], [k for k in want], "order of the parameters")
    require(exactly(p.as_nested_dicts(), before), "writing changed the parameters")
    # and once more: a fixed point
    same_tree(loader.load_string(str(back)), want, "loaded a second time")


def check_large(case, ctx):
    """Long texts, long lists and many names."""
    piece, times, end, n, width, how = case
    t = piece * times + end
    tree = {"a": t, "n": {"list": [t] * min(n, 3), "numbers": list(range(n)), "distinct": list(range(n)) + [True, False], "also": [0.0, 1.0] + list(range(n)), "texts": [str(i) for i in range(n)] + list(range(n)), "mixed": [[1, True, "1", 1.0, 0, False, "", "0", 0.0][(i * i + width) % 9] for i in range(n)], end.replace(".", "") or "e": t[:width]}, "k" * min(width, 300): 1}
    for i in range(n):
        tree.setdefault("key%d" % i, i if i % 3 else {"x": end})
    ctx.mark(len(t) > 1000)
    p = Parameters.from_mapping(tree)
    if how == "path":
        path = Path(ctx.tmp()) / "p.params"
        YAMLParametersWriter().write(p, path)
        back = YAMLParametersLoader().load(path)
    else:
        sink = CharSink.to_string()
        YAMLParametersWriter().write(p, sink)
        back = YAMLParametersLoader().load_string(sink.last_string_written)
    same_tree(back, tree, "loaded again")

    def order(x):
        return [(k, order(v) if isinstance(v, dict) else None) for k, v in x.items()]

    same(order(back.as_nested_dicts()), order(tree), "order of the parameters")


BAD = {"bytes": b"abc", "bytearray": bytearray(b"x"), "set": {1}, "object": object(), "function": len, "none": None}


def check_refused(case, ctx):
    kind, where = case
    v = BAD[kind]
    tree = {"a": 1, "b": {"c": v} if where == "nested" else [v] if where == "list" else v}
    ctx.mark()
    p = Parameters.from_mapping(tree)
    raises(RuntimeError, lambda: YAMLParametersWriter().write(p, CharSink.to_string()), "writing %s" % kind)


class Text(str):
    pass


class ShownText(str):
    def __str__(self):
        return "shown otherwise"

    __repr__ = __format__ = __str__


class Whole(int):
    pass


class ShownWhole(int):
    def __str__(self):
        return "shown otherwise"

    __repr__ = __str__


class Real(float):
    def __str__(self):
        return "shown otherwise"

    __repr__ = __str__


class Flags(enum.IntFlag):
    READ = 1
    WRITE = 2


KINDS = {"Text": Text, "ShownText": ShownText, "Whole": Whole, "ShownWhole": ShownWhole, "Real": Real, "Flags": lambda x: Flags(x % 4)}


def of_subclass(name, x):
    if name == "IntEnum":
        return enum.IntEnum("Numbers", {"A": x}).A
    if name == "StrEnum":
        return enum.Enum("Words", {"A": x}, type=str).A
    if name == "FloatEnum":
        return enum.Enum("Reals", {"A": x}, type=float).A
    return KINDS[name](x)


def check_subclasses(case, ctx):
    """Values (and names) of subclasses of texts and numbers are written as the plain values equal to them."""
    items, how = case
    ctx.mark(bool(items))

    def both(x):
        if isinstance(x, tuple):
            v = of_subclass(*x)
            return v, (x[1] % 4 if x[0] == "Flags" else x[1])
        if isinstance(x, list):
            pairs = [both(y) for y in x]
            return [a for a, _ in pairs], [b for _, b in pairs]
        if isinstance(x, dict):
            pairs = {k: both(v) for k, v in x.items()}
            return {k: a for k, (a, _) in pairs.items()}, {k: b for k, (_, b) in pairs.items()}
        return x, x

    put, want = {}, {}
    for name, kind, x in items:
        a, b = both(x)
        put[of_subclass(kind, name) if kind else name] = a
        want[name] = b
    p = Parameters.from_mapping(put)
    if how == "path":
        path = Path(ctx.tmp()) / "p.params"
        YAMLParametersWriter().write(p, path)
        back = YAMLParametersLoader().load(path)
    elif how == "str":
        back = YAMLParametersLoader().load_string(str(p))
    else:
        sink = CharSink.to_string()
        YAMLParametersWriter().write(p, sink)
        back = YAMLParametersLoader().load_string(sink.last_string_written)
    same_tree(back, want, "loaded again")


def check_bad_text(case, ctx):
    ctx.mark()
    raises(IOError, lambda: YAMLParametersLoader().load_string(case), "loading %r" % case)


own_text = st.tuples(st.sampled_from(["Text", "ShownText", "StrEnum"]), text)
own_whole = st.tuples(st.sampled_from(["Whole", "ShownWhole", "IntEnum", "Flags"]), st.integers(0, 10 ** 20) | st.sampled_from([-1, 2 ** 64]))
own_real = st.tuples(st.sampled_from(["Real", "FloatEnum"]), st.floats(allow_nan=False))
subclassed = st.recursive(own_text | own_whole | own_real | scalars, lambda x: st.lists(x, max_size=3) | st.dictionaries(keys, x, max_size=2), max_leaves=4)
# lists which differ but are shown alike
subclassed = subclassed | st.lists(st.tuples(st.sampled_from(["ShownText", "ShownText", "ShownWhole"]), st.sampled_from("ab")).map(lambda x: x if x[0] == "ShownText" else (x[0], len(x[1]) + ord(x[1]))), min_size=1, max_size=2)

PROP = Prop(
    "C13",
    [
        Sub("round_trip", st.tuples(nested(2), st.sampled_from(["str", "string sink", "path", "name", "file sink"]), st.booleans()), check, 1200, 60, "not empty"),
        Sub("values", st.tuples(st.fixed_dictionaries({"a": leaf, "b": st.fixed_dictionaries({"c": scalars})}), st.just("str"), st.just(False)), check, 1500, 40, "all"),
        Sub("keys", st.tuples(st.dictionaries(key_text, st.integers(0, 3), min_size=1, max_size=4), st.just("str"), st.just(False)), check, 700, 40, "all"),
        Sub("large", st.tuples(st.sampled_from(["x", "word ", "a\n", "\u00e9", "\U0001f600", " ", "it's: #", "x\t", "1"]), st.sampled_from([0, 1, 79, 130, 1025, 4097, 10001]), st.sampled_from(["", " ", "\n", " \n", "\n ", "\n\n", "\t", "x"]),
                               st.sampled_from([0, 1, 40, 129, 300]), st.sampled_from([0, 10, 77, 78, 79, 80, 129, 300]), st.sampled_from(["path", "string"])), check_large, 60, 40, "a text of more than a thousand characters"),
        Sub("refused", st.tuples(st.sampled_from(sorted(BAD)), st.sampled_from(["top", "nested", "list"])), check_refused, 40, 1, "all"),
        Sub("subclasses", st.tuples(st.lists(st.tuples(keys, st.sampled_from([None, "Text", "StrEnum", "ShownText"]), subclassed), max_size=4, unique_by=lambda x: x[0]), st.sampled_from(["path", "str", "string"])), check_subclasses, 250, 60, "not empty"),
        Sub("bad_text", st.sampled_from(["", "- a\n- b\n", "a", "1", "null", "1: a\n", "a:\n  2: b\n", "true: 1\n", "a: {b: {3: 4}}\n", "a: [\n", "a: 'x\n", "{", "a: 1\n b: 2\n", "\t: 1", "a: !!python/object/apply:os.getcwd []\n",
                                         "null: 1\n", "1.5: x", "2001-01-01: x"]), check_bad_text, 30, 1, "all"),
    ],
    assumptions=[
        "values are numbers except NaN, booleans, texts without interpolation (%name%), paths, sequences and mappings of them; names have no dot",
    ],
)
