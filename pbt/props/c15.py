"""C15 Included parameter files: loaded in order, later ones win, and usable for interpolation."""
import os
import warnings
from pathlib import Path

from hypothesis import strategies as st

from core import Prop, Sub, raises, require, same
from props.c14 import Bad, Unspecified, dump, environment, interpolate, merge
from props.paramgen import make, same_tree
from vistautils.parameters import ParameterError, Parameters, YAMLParametersLoader

DIRS = ["", "sub", "sub/deeper", "other", "with space", "include", "include/include", "p", " ends ", "sub/sub", "$HOME", "%a%", "params.d"]


def write_files(root, files):
    """Write each file with its includes; returns the paths."""
    out = []
    for i, (d, tree, includes, fault) in enumerate(files):
        path = Path(root, DIRS[d], "p.params")
        if path in out:
            path = Path(root, DIRS[d], "f%d.params" % i)
        path.parent.mkdir(parents=True, exist_ok=True)
        out.append(path)
    for i, (d, tree, includes, fault) in enumerate(files):
        content = {}
        listed = []
        for j, style in includes:
            listed.append(spell(out[j], out[i].parent, style, root))
        if fault == "missing":
            listed.append("does_not_exist.params")
        elif fault == "absolute missing":
            listed.insert(i % (len(listed) + 1), os.path.join(str(root), "does_not_exist.params"))
        elif fault == "self":
            listed.append(out[i].name)
        items = list(tree.items())
        if includes or fault in ("missing", "absolute missing", "self") or fault == "empty list":
            # the directive need not come first
            at = len(items) // 2 if i % 2 else 0
            items.insert(at, ("_includes", listed))
        content = dict(items)
        text = dump(content)
        if fault == "broken":
            text += "\n]broken: [\n"
        elif fault == "list":
            text = "- a\n- b\n"
        elif fault == "empty file":
            text = ""
        out[i].write_text(text, encoding="utf-8")
    return out


def spell(target, base, style, root):
    if style == "absolute":
        return str(target)
    rel = os.path.relpath(str(target), str(base))
    if style == "file link":
        # a link to the file: what that includes is found from where it really is
        link = Path(base, "link to " + os.path.relpath(str(target), root).replace(os.sep, "|"))
        if not link.is_symlink():
            link.symlink_to(target)
        return link.name
    if style in ("symlink", "absolute symlink"):
        # through a link to a directory elsewhere, where .. leads to the parent of what it leads to
        link = Path(base, "to elsewhere")
        away = Path(root, "away", "elsewhere")
        away.mkdir(parents=True, exist_ok=True)
        if not link.is_symlink():
            link.symlink_to(away, target_is_directory=True)
        return os.path.join(str(link) if "absolute" in style else link.name, "..", os.path.relpath(str(target), str(away.parent)))
    if style == "dotted":
        return os.path.join(".", "..", os.path.basename(str(base)), rel)
    return rel


def model(files, i, context, env):
    d, tree, includes, fault = files[i]
    if fault in ("missing", "absolute missing", "self", "broken", "list", "empty file"):
        raise Bad(fault)
    previous = context
    for j, _ in includes:
        previous = merge(previous, model(files, j, previous, env))
    return merge(previous, interpolate(tree, previous, env))


def check(case, ctx):
    files, context, env, how = case
    # a file includes only those before it
    files = [(d, t, [(j % i, s) for j, s in inc] if i else [], f) for i, (d, t, inc, f) in enumerate(files)]
    if sum(len(f[2]) for f in files) > 12:
        return
    root = os.path.join(ctx.tmp(), "r")
    last = len(files) - 1
    paths = write_files(root, files)
    try:
        want = model(files, last, context, env)
    except Bad as e:
        want = None
        why = str(e)
    except Unspecified:
        return
    used = bool(files[last][2])
    ctx.mark(used, "includes" if used else "none")
    ctx.label("fails" if want is None else "loads", how)
    if any(files[j][2] for j, _ in files[last][2]):
        ctx.label("nested includes")
    given = make(context)
    prefix = [(), ("P",), ("P", "Q r")][(len(files) + len(env)) % 3]
    kw = {"namespace_path": list(prefix)} if prefix else {}

    def load():
        with environment(env):
            loader = YAMLParametersLoader()
            if how == "path":
                return loader.load(paths[last], included_context=given, **kw)
            if how == "deprecated context":
                return loader.load(str(paths[last]), given, **kw)
            if how == "relative path":
                keep = os.getcwd()
                os.chdir(root)
                try:
                    return loader.load(os.path.relpath(str(paths[last]), root), included_context=given, **kw)
                finally:
                    os.chdir(keep)
            # a string: its includes must be absolute
            text = dump({"_includes": [str(paths[last])]})
            return loader.load_string(text, included_context=given, **kw)

    if want is None:
        raises((IOError, ParameterError), load, "loading (%s)" % why)
    else:
        got = load()
        same_tree(got, want, "loaded with includes")
        require("_includes" not in got, "the directive was left in the parameters")
        same(tuple(got.namespace_prefix), prefix, "the namespace asked for")
        error = raises(ParameterError, lambda: got.string("nosuch"), "an absent parameter")
        require(not prefix or ".".join(prefix) in str(error), "the namespace is not named for an absent parameter", str(error))
    if want is not None:
        # and again, when the files have changed
        files = [(d, dict(t, **{"a": "new", "z%d" % i: "%a%"}), inc, f) for i, (d, t, inc, f) in enumerate(files)]
        try:
            want = model(files, last, context, env)
        except (Bad, Unspecified):
            want = None
        if want is not None:
            write_files(root, files)
            same_tree(load(), want, "loaded again after the files have changed")
    same_tree(given, context, "the context afterwards")


def check_string(case, ctx):
    """Strings: absolute includes are fine, relative ones are refused."""
    style, own, included, where = case
    root = ctx.tmp()
    path = Path(root, "inc.params")
    path.write_text(dump(included), encoding="utf-8")
    keep = os.getcwd()
    os.chdir(root)
    try:
        spelt = str(path) if "absolute" in style else "inc.params" if style == "relative" else "./inc.params"
        content = dict(own, _includes=[spelt])
        if style == "absolute missing":
            content["_includes"].insert(len(own) % 2, str(path) + "x")
        fn = lambda: YAMLParametersLoader().load_string(dump(content))
        ctx.mark(label=style)
        if style == "absolute":
            try:
                want = merge(included, interpolate(own, included, {}))
            except (Bad, Unspecified):
                raises((IOError, ParameterError), fn, "a string with includes")
                return
            same_tree(fn(), want, "a string with includes")
        else:
            raises((IOError, ParameterError), fn, "a relative include in a string")
    finally:
        os.chdir(keep)


def check_both_contexts(case, ctx):
    path = Path(ctx.tmp(), "p")
    path.write_text(dump(case), encoding="utf-8")
    ctx.mark()
    raises(ParameterError, lambda: YAMLParametersLoader().load(path, make({}), included_context=make({})), "two contexts")
    same_tree(YAMLParametersLoader().load(path), case, "no context")


def check_nested_directive(case, ctx):
    """Only a top-level _includes is a directive."""
    tree = {"n": {"_includes": case, "x": 1}}
    ctx.mark()
    same_tree(YAMLParametersLoader().load_string(dump(tree)), tree, "a nested _includes")


def check_cycle(case, ctx):
    """Files which include each other in a circle are refused, rather than loaded for ever."""
    n = case
    root = ctx.tmp()
    for i in range(n):
        Path(root, "f%d" % i).write_text(dump({"_includes": ["f%d" % ((i + 1) % n)], "a%d" % i: 1}), encoding="utf-8")
    ctx.mark()
    raises((IOError, ParameterError, RecursionError), lambda: YAMLParametersLoader().load(Path(root, "f0")), "a circle of includes")


def check_many(case, ctx):
    """Many includes in a list or one after the other; parameters build on those of the includes before."""
    n, shape, refer, context = case
    if shape == "pairs" and n > 9:
        # (as many loads as there are paths through the includes)
        n = 9
    root = os.path.join(ctx.tmp(), "r")
    files = []
    for i in range(n):
        tree = {"k%d" % i: "v%d" % i, "last": "f%d" % i, "N": {"x%d" % i: str(i), "last": str(i)}}
        if refer and i:
            tree["k%d" % i] = "%%k%d%%+" % (i - 1) if refer == "previous" else "%k0%+%N.last%"
        # in a list, a file does not include those before it
        includes = [(i - 1, "relative" if i % 2 else "dotted")] if shape == "chain" and i else []
        if shape == "pairs" and i:
            includes = [(i - 2, "absolute"), (i - 1, "relative")] if i % 2 == 0 else [(i - 1, "relative")]
        files.append((i % len(DIRS), tree, includes, None))
    files.append((1, {"end": "%k0%", "last": "end"}, [(j, "relative") for j in range(n)] if shape == "list" else [(n - 1, "relative")], None))
    paths = write_files(root, files)
    want = model(files, n, context, {})
    ctx.mark(label=shape)
    with environment({}):
        got = YAMLParametersLoader().load(paths[-1], included_context=make(context))
    same_tree(got, want, "loaded with %d includes (%s)" % (n, shape))


text = st.sampled_from(["v", "w", "", "%a%", "%b%", "%c%+", "<%a%>", "%N.x%", "%ctx%", "%VISTA_A%", "1"])
leaf = text | st.sampled_from([0, 1, False, [1], ["%a%"]])
good_leaf = st.sampled_from(["v", "w", "", "u"])
ns = st.dictionaries(st.sampled_from(["x", "y"]), leaf.map(lambda x: x), max_size=2)
trees = st.fixed_dictionaries({}, optional={"a": leaf, "b": leaf, "c": leaf, "N": ns})
plain = st.fixed_dictionaries({}, optional={"a": good_leaf, "b": good_leaf, "c": good_leaf, "N": st.dictionaries(st.sampled_from(["x", "y"]), good_leaf, max_size=2)})
own = st.dictionaries(st.sampled_from(["d", "e"]), text, max_size=2)
faults = st.sampled_from([None] * 14 + ["empty list", "missing", "absolute missing", "broken", "list", "empty file"])
includes = st.lists(st.tuples(st.integers(0, 4), st.sampled_from(["relative", "relative", "absolute", "dotted", "symlink", "absolute symlink", "file link"])), max_size=3)
where = st.integers(0, 4) | st.integers(0, len(DIRS) - 1)
one = st.tuples(where, trees | plain | plain.map(lambda x: x), includes, faults)
good = st.tuples(where, plain, includes, st.none())
user = st.tuples(where, trees, includes.filter(len), st.none())
contexts = st.just({}) | st.fixed_dictionaries({}, optional={"ctx": st.just("from context"), "a": st.just("context a"), "N": st.just({"x": "cx", "z": "cz"})})
envs = st.sampled_from([{}, {"VISTA_A": "env"}, {"VISTA_A": "env", "a": "env a"}])
HOWS = st.sampled_from(["path", "path", "deprecated context", "relative path", "string"])
PROP = Prop(
    "C15",
    [
        Sub("files", st.tuples(st.lists(one, min_size=1, max_size=5), contexts, envs, HOWS), check, 1000, 60, "the file loaded has includes"),
        Sub("users", st.tuples(st.tuples(st.lists(good, min_size=1, max_size=4), user).map(lambda x: x[0] + [x[1]]), contexts, envs, HOWS), check, 1200, 60, "the file loaded has includes"),
        Sub("many", st.tuples(st.integers(2, 9) | st.integers(10, 60), st.sampled_from(["list", "list", "chain", "pairs"]), st.sampled_from([None, "previous", "first"]), st.sampled_from([{}, {"ctx": "c", "last": "context"}])),
            check_many, 40, 15, "all"),
        Sub("string", st.tuples(st.sampled_from(["absolute", "absolute", "relative", "dot", "absolute missing"]), trees, plain, st.just(0)), check_string, 250, 20, "all"),
        Sub("cycle", st.sampled_from([1, 2, 3]), check_cycle, 3, 1, "all"),
        Sub("contexts", plain, check_both_contexts, 30, 2, "all"),
        Sub("nested", st.lists(st.sampled_from(["x", "/y"]), max_size=2), check_nested_directive, 10, 1, "all"),
    ],
    assumptions=["files are included at most a dozen times in one case"],
)
