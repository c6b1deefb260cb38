"""C23 Key-value stores of every kind agree with a mapping, however they are made and wrapped."""
import os
import tarfile
import io
import zipfile
from pathlib import Path

from hypothesis import strategies as st

from core import Prop, Sub, fail, raises, require, same, same_typed
from props.c16 import snapshot
from props.c19 import open_files
from props.c20 import FAILURES
from vistautils import key_value as kv
from vistautils.io_utils import CharSource
from vistautils.key_value import KeyValueLinearSource, KeyValueSink, KeyValueSource
from vistautils.parameters import ParameterError, Parameters


def conv(text, chars):
    # (nothing stays nothing)
    return text if chars else text.encode("utf-8") + (b"\xfe" if text else b"")


def check_source(source, model, what, absent=("nosuch", "K1", "")):
    """A random-access source against a mapping."""
    same(set(source.keys()), set(model), what + ": keys")
    same(len(source.keys()), len(model), what + ": number of keys")
    items = list(source.items())
    same(len(items), len(model), what + ": number of items")
    same(dict(items), model, what + ": items")
    same(dict(source.items(lambda k: "1" in k)), {k: v for k, v in model.items() if "1" in k}, what + ": items by a filter")
    same(dict(source.items(key_filter=lambda k: False)), {}, what + ": items by a filter")
    # (anything which is true or false will do)
    same(dict(source.items(lambda k: [1] * k.count("1"))), {k: v for k, v in model.items() if "1" in k}, what + ": items by a filter which gives no booleans")
    same(dict(source.items(lambda k: None)), {}, what + ": items by a filter which gives no booleans")
    default = object()
    for k, v in model.items():
        same_typed(source[k], v, what + ": value of %r" % k)
        same_typed(source.get(k), v, what + ": get of %r" % k)
        same_typed(source.get(k, default), v, what + ": get of %r with a default" % k)
    for k in absent:
        if k not in model:
            raises(KeyError, lambda: source[k], what + ": an absent key")
            require(source.get(k) is None, what + ": get of an absent key")
            require(source.get(k, default) is default, what + ": default for an absent key")


def items_of(source, model, what):
    """A linear source against a list of pairs."""
    same(list(source.items()), model, what + ": items")
    same(list(source.items()), model, what + ": items again")
    same(list(source.items(lambda k: "1" in k)), [(k, v) for k, v in model if "1" in k], what + ": items by a filter")
    same(list(source.items(lambda k: k.count("1"))), [(k, v) for k, v in model if "1" in k], what + ": items by a filter which gives no booleans")
    same(list(source.items(lambda k: None)), [], what + ": items by a filter which gives no booleans")
    same(list(source.items(key_filter=lambda k: k > "k")), [(k, v) for k, v in model if k > "k"], what + ": items by a filter")


def failing_block(source, read, what, n):
    """A failure inside the block is what comes out of it; everything is released; the source can be entered again."""
    failure = FAILURES[n % len(FAILURES)]

    def run():
        with source as s:
            read(s)
            raise failure()

    raises(failure, run, what + ": a failure while the source is used")


# ------------------------------------------------------------------ directories


def directory_sink(how, chars, root, directory):
    make = kv.char_key_value_sink_from_params if chars else kv.byte_key_value_sink_from_params
    tree = {"path": directory}
    if how != "no type":
        tree["type"] = how
    return make(Parameters.from_mapping({"output": tree, "other": 1}))


def check_directory(case, ctx):
    chars, how, content, actions, end, via = case
    tmp = ctx.tmp()
    directory = os.path.join(tmp, "out")
    os.mkdir(directory)
    with open(os.path.join(tmp, "beside"), "w") as f:
        f.write("beside")
    for name in content:
        full = os.path.join(directory, name)
        if name.startswith("d"):
            os.mkdir(full)
        else:
            with open(full, "w") as f:
                f.write("old " + name)
    sink = directory_sink(how, chars, tmp, directory)
    before = snapshot(tmp)
    ctx.label("type " + how)
    if content:
        ctx.mark(label="directory which is not empty")
        raises(Exception, sink.__enter__, "a sink to a directory which is not empty")
        same(snapshot(tmp), before, "files after a sink was refused")
        return
    model = {}

    def run():
        with sink as s:
            for action, key, text in actions:
                value = conv(text, chars)
                if action == "put":
                    s.put(key, value)
                    model[key] = value
                elif action == "set":
                    s[key] = value
                    model[key] = value
                elif key not in model:
                    ctx.label("wrong value")
                    raises(Exception, lambda: s.put(key, 17), "a put of a number")
            if end == "fail":
                raise failure()

    failure = FAILURES[(len(actions) + len(how)) % len(FAILURES)]
    if end == "fail":
        ctx.label("interrupted")
        raises(failure, run, "a failure while the sink is used")
    else:
        run()
    ctx.mark(len(model) > 1)
    for k, v in model.items():
        with open(os.path.join(directory, k), "rb") as f:
            same(f.read(), v.encode("utf-8") if chars else v, "file of %r" % k)
    index = os.path.join(directory, "_index")
    what = "directory read by %s" % via
    if via == "map":
        make = KeyValueSource.from_doc_id_to_file_map if chars else KeyValueSource.binary_from_doc_id_to_file_map
        source = make(Path(index))
    else:
        make = kv.char_key_value_source_from_params if chars else kv.byte_key_value_source_from_params
        source = make(Parameters.from_mapping({"input": {"type": "file-map", "path": index} if via == "params" else {"path": index}}))
    with source as s:
        check_source(s, model, what)
    # the index can be used from anywhere: a sink into the same directory is refused now
    after = snapshot(tmp)
    raises(Exception, sink.__enter__, "entering a directory sink whose directory is not empty any more")
    same(snapshot(tmp), after, "files after a sink was refused")
    same(open_files(tmp), [], "files left open")


# ------------------------------------------------------------------ maps of files


def check_map(case, ctx):
    chars, how, entries, dangling = case
    tmp = ctx.tmp()
    model, paths = {}, {}
    for i, (k, text) in enumerate(entries):
        path = os.path.join(tmp, "sub%d" % (i % 2), "file %d" % i)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        model[k] = conv(text, chars)
        with open(path, "wb") as f:
            f.write(text.encode("utf-8") if chars else model[k])
        paths[k] = Path(path)
    if dangling:
        paths["dangling"] = {"missing": Path(tmp) / "nowhere", "directory": Path(tmp), "root": Path("/"), "below a file": Path("/dev/null/x"), "dot": Path("."), "up": Path("..")}[dangling]
    ctx.mark(len(model) > 1)
    ctx.label(how)
    map_path = os.path.join(tmp, "map")
    text = "".join("%s\t%s\n" % (k, p) for k, p in paths.items())
    with open(map_path, "w", encoding="utf-8") as f:
        f.write(text)
    if how == "mapping" and chars:
        source = KeyValueSource.from_path_mapping(paths)
    else:
        make = KeyValueSource.from_doc_id_to_file_map if chars else KeyValueSource.binary_from_doc_id_to_file_map
        source = make({"str": map_path, "path": Path(map_path), "source": CharSource.from_string(text), "mapping": Path(map_path)}[how])
    before = snapshot(tmp)
    if how == "mapping" and chars:
        kept = dict(paths)
        paths["later"] = Path(tmp) / "map"
        paths.pop("dangling", None)
        same(set(source.keys()), set(kept), "keys after the mapping was changed")
        require(source.get("later") is None, "a key added to the mapping later")
    else:
        # the map was read when the source was made
        pass
    with source as s:
        if dangling:
            ctx.label("dangling")
            same(set(s.keys()), set(model) | {"dangling"}, "keys")
            raises(OSError, lambda: s["dangling"], "value whose file is missing")
            raises(OSError, lambda: s.get("dangling", "default"), "value whose file is missing")
            same(dict(s.items(lambda k: k != "dangling")), model, "items but the missing one")
            for k, v in model.items():
                same_typed(s[k], v, "value")
        else:
            check_source(s, model, "map of files by %s" % how)
            for k, p in list(paths.items()):
                if k in model:
                    # values are those of the files now
                    with open(p, "ab") as f:
                        f.write(b"more")
                    model[k] += "more" if chars else b"more"
                    same_typed(s[k], model[k], "value of a file which was changed")
                    if model[k][:1] not in ("", b"") and model[k][:1].isascii():
                        # also when neither its length nor its time tells
                        was = os.stat(str(p))
                        other = (conv("x", True) if chars else b"x") + model[k][1:]
                        with open(p, "wb") as f:
                            f.write(other.encode("utf-8") if chars else other)
                        os.utime(str(p), ns=(was.st_atime_ns, was.st_mtime_ns))
                        model[k] = other
                        same_typed(s[k], model[k], "value of a file which was changed in place")
                    break
            before = snapshot(tmp)
    failing_block(source, lambda s: s.get("k1") if dangling is None else None, "map of files by %s" % how, len(text))
    with source as s:
        same(set(s.keys()), set(model) | ({"dangling"} if dangling else set()), "keys when entered again")
    same(snapshot(tmp), before, "files after reading")
    same(open_files(tmp), [], "files left open")


# ------------------------------------------------------------------ tar files

KEY_FUNCTIONS = {
    "none": None,
    "upper": lambda name: name.upper(),
    "base": lambda name: name.split("/")[-1],
    "some": lambda name: None if "2" in name else "k" + name,
}
NAME_FILTERS = {"none": None, "no dots": lambda name: "." not in name, "nothing": lambda name: False, "dir": lambda name: name.startswith("dir/")}


def check_tgz(case, ctx):
    chars, members, key_function, name_filter, interpret, compression = case
    tmp = ctx.tmp()
    path = Path(tmp) / "a.tgz"
    expected = []
    asked = []
    with tarfile.open(path, "w:" + compression) as t:
        for kind, name, text in members:
            info = tarfile.TarInfo(name)
            if kind == "dir":
                info.type = tarfile.DIRTYPE
                t.addfile(info)
                continue
            data = text.encode("utf-8") if chars else conv(text, chars)
            info.size = len(data)
            t.addfile(info, io.BytesIO(data))
            if NAME_FILTERS[name_filter] and not NAME_FILTERS[name_filter](name):
                continue
            k = KEY_FUNCTIONS[key_function](name) if KEY_FUNCTIONS[key_function] else name
            if k is not None:
                expected.append((k, conv(text, chars)))
    ctx.mark(len(expected) > 1)
    ctx.label("key function " + key_function, "name filter " + name_filter)
    kw = {}
    if key_function != "none":
        def key_of(name):
            if NAME_FILTERS[name_filter] and not NAME_FILTERS[name_filter](name):
                # such a function need not be able to make sense of the names of other files
                raise RuntimeError("the key of %r is asked for, which the filter refuses" % name)
            return KEY_FUNCTIONS[key_function](name)

        kw["key_function"] = key_of
    if name_filter != "none":
        kw["name_filter"] = NAME_FILTERS[name_filter]
    make = KeyValueLinearSource.str_linear_source_from_tar_gz if chars else KeyValueLinearSource.byte_linear_source_from_tar_gz
    source = make(path, **kw)
    if interpret:
        calls = []

        def interpretation(k, v):
            calls.append(k)
            return (k, len(v), v)

        source = KeyValueLinearSource.interpret_values(source, interpretation)
        expected = [(k, (k, len(v), v)) for k, v in expected]
    raises(Exception, lambda: list(source.items()), "items of a tar file before the source was entered")
    with source as s:
        require(s is source, "what entering a source gives", s)
        items_of(s, expected, "tar file")
        if interpret:
            del calls[:]
            list(s.items(lambda k: "1" in k))
            same(calls, [k for k, _ in expected if "1" in k], "keys whose values were interpreted")
    with source as s:
        same(list(s.items()), expected, "items of a tar file once more")
    failing_block(source, lambda s: next(iter(s.items()), None), "tar file", len(members) + len(name_filter))
    same(open_files(tmp), [], "files left open")


# ------------------------------------------------------------------ interpreted values


def check_interpret(case, ctx):
    entries, kind, twice, nothing_for = case
    tmp = ctx.tmp()
    model = dict(entries)
    calls = []

    def interpretation(k, v):
        calls.append((k, v))
        return None if k == nothing_for else [k, v.upper()]

    def second(k, v):
        return (k, v)

    if kind == "zip":
        path = Path(tmp) / "s.zip"
        with KeyValueSink.zip_character_sink(path) as sink:
            for k, v in entries:
                sink[k] = v
        inner = KeyValueSource.zip_character_source(path)
    elif kind == "no keys":
        path = Path(tmp) / "s.zip"
        with zipfile.ZipFile(path, "w") as z:
            for k, v in entries:
                z.writestr(k, v)
        inner = KeyValueSource.zip_character_source(path)
    else:
        paths = {}
        for i, (k, v) in enumerate(entries):
            paths[k] = Path(tmp) / str(i)
            paths[k].write_bytes(v.encode("utf-8"))
        inner = KeyValueSource.from_path_mapping(paths)
    source = KeyValueSource.interpret_values(inner, interpretation)
    want = {k: None if k == nothing_for else [k, v.upper()] for k, v in entries}
    if twice:
        source = KeyValueSource.interpret_values(source, second)
        want = {k: (k, v) for k, v in want.items()}
    if kind != "map":
        raises(Exception, lambda: source["k1"], "use of a source which was not entered")
    ctx.mark(bool(entries))
    ctx.label(kind, "twice" if twice else "once")
    with source as s:
        require(s is source, "what entering a source gives", s)
        del calls[:]
        raises(KeyError, lambda: s["nosuch"], "an absent key")
        require(s.get("nosuch") is None, "an absent key")
        require(s.get("nosuch", "default") == "default", "the default for an absent key is not interpreted")
        same(calls, [], "interpretations of absent keys")
        # what goes wrong in an interpretation is not taken for an absent key
        for failure in FAILURES + [KeyError, LookupError, ValueError]:
            def failing(k, v, failure=failure):
                raise failure("interpretation of " + k)

            unhappy = KeyValueSource.interpret_values(s, failing)
            # (not entered: s is)
            for k in list(model)[:2]:
                raises(failure, lambda: unhappy[k], "a failing interpretation")
                raises(failure, lambda: unhappy.get(k), "a failing interpretation, by get")
                raises(failure, lambda: unhappy.get(k, "default"), "a failing interpretation, by get with a default")
            raises(KeyError, lambda: unhappy["nosuch"], "an absent key")
            require(unhappy.get("nosuch", "default") == "default", "the default for an absent key is not interpreted")
            if model and kind != "no keys" and failure is not StopIteration:
                raises(failure, lambda: list(unhappy.items()), "a failing interpretation, by items")
        for k, v in want.items():
            same_typed(s[k], v, "value of %r" % k)
            same_typed(s.get(k), v, "get of %r" % k)
            same_typed(s.get(k, "default"), v, "get of %r with a default" % k)
        require(all(c in model.items() for c in calls), "keys and values given to the interpretation", calls)
        if kind == "no keys":
            require(s.keys() is None, "keys", s.keys())
            raises(NotImplementedError, lambda: list(s.items()), "items of a source without keys")
        else:
            same(set(s.keys()), set(model), "keys")
            same(dict(s.items()), want, "items")
            same(dict(s.items(lambda k: "1" in k)), {k: v for k, v in want.items() if "1" in k}, "items by a filter")
    failing_block(source, lambda s: s.get("k1"), "interpreted " + kind, len(entries) + len(kind))
    same(open_files(tmp), [], "files left open")
    if kind != "map":
        raises(Exception, lambda: source["k1"], "use of a source which was left")
    same(open_files(tmp), [], "files left open")


# ------------------------------------------------------------------ by parameters


class Watched:
    """A source of a user's own, which sees how it is used; random-access or not."""

    def __init__(self, pairs, takes):
        self.pairs, self.takes, self.log = dict(pairs), takes, []

    def __enter__(self):
        self.log.append("enter")
        return self

    def __exit__(self, *exc):
        self.log.append(exc)
        return self.takes


class WatchedSource(Watched, KeyValueSource):
    def __getitem__(self, item):
        return self.pairs[item]

    def get(self, key, _default=None):
        return self.pairs.get(key, _default)

    def keys(self):
        return self.pairs.keys()


class WatchedLinear(Watched, KeyValueLinearSource):
    def items(self, key_filter=lambda x: True):
        return ((k, v) for k, v in self.pairs.items() if key_filter(k))


def check_wrapped(case, ctx):
    """A wrapper enters and leaves what it wraps as it is entered and left itself."""
    entries, linear, levels, failure, takes, sessions = case
    ctx.mark(failure is not None)
    inner = (WatchedLinear if linear else WatchedSource)(entries, takes)
    source = inner
    want = dict(entries)
    for _ in range(levels):
        source = (KeyValueLinearSource if linear else KeyValueSource).interpret_values(source, lambda k, v: (k, v))
        want = {k: (k, v) for k, v in want.items()}
    for i in range(sessions):
        del inner.log[:]
        error = FAILURES[failure]() if failure is not None else None

        def run():
            with source as s:
                require(s is source, "what entering a wrapper gives", s)
                same(inner.log, ["enter"], "what the wrapped source saw")
                same(dict(s.items()), want, "items of a wrapper")
                if error is not None:
                    raise error

        if error is not None and not takes:
            e = raises(type(error), run, "a failure while a wrapper is used")
            require(e is error, "another failure than that of the user", e)
        else:
            run()
        same(len(inner.log), 2, "what the wrapped source saw")
        require(inner.log[1][1] is error and inner.log[1][0] is (type(error) if error is not None else None), "the failure which the wrapped source saw", inner.log)


class ListSource(KeyValueSource):
    """A user's own source."""

    def __init__(self, pairs, params):
        self.pairs = dict(pairs)
        self.params = params

    def __getitem__(self, item):
        return self.pairs[item]

    def get(self, key, _default=None):
        return self.pairs.get(key, _default)

    def keys(self):
        return self.pairs.keys()

    def __exit__(self, *exc):
        return False

    @staticmethod
    def from_parameters(params):
        return ListSource(params.arbitrary_list("pairs"), params)


class LinearOnly(KeyValueLinearSource):
    """A user's own source which can only be read from its start to its end."""

    def __init__(self, pairs, params):
        self.pairs = pairs
        self.params = params

    def items(self, key_filter=lambda x: True):
        return ((k, v) for k, v in self.pairs if key_filter(k))

    def __exit__(self, *exc):
        return False

    @staticmethod
    def from_parameters(params):
        return LinearOnly([tuple(p) for p in params.arbitrary_list("pairs")], params)


class ListSink(KeyValueSink):
    def __init__(self, params):
        self.params = params
        self.pairs = {}

    def put(self, key, value):
        self.pairs[key] = value

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None

    @staticmethod
    def from_parameters(params):
        return ListSink(params)


def own_source(params):
    return ListSource([("own", "function")], params)


def check_params(case, ctx):
    chars, linear, entries, type_, namespace, path, fault = case
    tmp = ctx.tmp()
    model = {k: conv(v, chars) for k, v in entries}
    source_makers = {
        (True, False): kv.char_key_value_source_from_params, (False, False): kv.byte_key_value_source_from_params,
        (True, True): kv.char_key_value_linear_source_from_params, (False, True): kv.byte_key_value_linear_source_from_params,
    }
    make_source = source_makers[chars, linear]
    make_sink = kv.char_key_value_sink_from_params if chars else kv.byte_key_value_sink_from_params

    def params_of(tree, default):
        root = {namespace or default: tree, "unrelated": {"type": "nosuch"}}
        for part in reversed(path):
            root = {part: root, "other": 1}
        p = Parameters.from_mapping(root)
        for part in path:
            p = p.namespace(part)
        return p

    in_kw = {"input_namespace": namespace} if namespace else {}
    out_kw = {"output_namespace": namespace} if namespace else {}
    ctx.label(type_)
    ctx.mark(bool(model))
    where = os.path.join(tmp, "sub", "store")
    if type_ in ("zip", "directory", "file-map", "no type"):
        tree = {"path": where}
        if type_ != "no type":
            tree["type"] = type_
        if type_ == "zip":
            if fault == "old":
                os.makedirs(os.path.dirname(where))
                with zipfile.ZipFile(where, "w") as z:
                    z.writestr("old", "old")
                    z.writestr("__keys", "old")
        else:
            if fault == "old":
                raises(ParameterError, lambda: make_sink(params_of(tree, "output"), **out_kw), "a sink to a directory which does not exist")
                return
            os.makedirs(where)
        sink = make_sink(params_of(tree, "output"), **out_kw)
        require(isinstance(sink, KeyValueSink), "sink by parameters", sink)
        with sink as s:
            for k, v in model.items():
                s.put(k, v)
        tree = {"path": where if type_ == "zip" else os.path.join(where, "_index")}
        if type_ == "zip":
            tree["type"] = "zip"
            # what was written is a zip store, and nothing of an earlier one is left
            with zipfile.ZipFile(where) as z:
                same(set(z.namelist()), set(model) | {"__keys"}, "files of the zip store")
        elif type_ == "file-map":
            tree["type"] = "file-map"
        if fault == "missing":
            os.remove(tree["path"])
            raises(ParameterError, lambda: make_source(params_of(tree, "input"), **in_kw), "a source of a missing file")
            return
        source = make_source(params_of(tree, "input"), **in_kw)
        require(isinstance(source, KeyValueSource if not linear else KeyValueLinearSource), "source by parameters", source)
        with source as s:
            if linear:
                got = list(s.items())
                same(len(got), len(model), "number of items")
                same(dict(got), model, "items")
            else:
                check_source(s, model, "source by parameters")
        if type_ == "zip":
            with source as s:
                same(dict(s.items()), model, "items, entered again")
    elif type_ == "own class":
        tree = {"type": "props.c23.ListSource", "import": ["props.c23"], "pairs": [[k, v] for k, v in entries]}
        source = make_source(params_of(tree, "input"), **in_kw)
        with source as s:
            same(dict(s.items()), dict(entries), "items of an own source")
            same(s.params.as_nested_dicts(), tree, "parameters of an own source")
        # sources without random access are for those who read linearly
        tree = {"type": "props.c23.LinearOnly", "import": ["props.c23"], "pairs": [[k, v] for k, v in entries]}
        if linear:
            with make_source(params_of(tree, "input"), **in_kw) as s:
                same(list(s.items()), list(entries), "items of an own linear source")
        else:
            raises(Exception, lambda: make_source(params_of(tree, "input"), **in_kw), "a linear source where one with random access is asked for")
        tree = {"type": "props.c23.ListSink", "import": ["props.c23"], "n": 3}
        with make_sink(params_of(tree, "output"), **out_kw) as s:
            same(s.params.as_nested_dicts(), tree, "parameters of an own sink")
    elif type_ == "own context":
        context = {"mine": own_source, "Sink": ListSink}
        source = make_source(params_of({"type": "mine"}, "input"), eval_context=context, **in_kw)
        require(isinstance(source, ListSource), "own source", source)
        same(source["own"], "function", "value of an own source")
        sink = make_sink(params_of({"type": "Sink"}, "output"), eval_context=context, **out_kw)
        require(isinstance(sink, ListSink), "own sink", sink)
        same(context, {"mine": own_source, "Sink": ListSink}, "the context afterwards")
        # the user's context has priority
        source = make_source(params_of({"type": "KeyValueSource"}, "input"), eval_context={"KeyValueSource": own_source}, **in_kw)
        require(isinstance(source, ListSource), "own source of a name known before", source)
        sink = make_sink(params_of({"type": "KeyValueSink"}, "output"), eval_context={"KeyValueSink": ListSink}, **out_kw)
        require(isinstance(sink, ListSink), "own sink of a name known before", sink)
    else:
        ctx.label("refused")
        for tree in ({"type": "nosuchtype", "path": tmp}, {"type": "dict"}, {"type": "len"}, {"type": "1 + 1"}):
            raises(Exception, lambda: make_source(params_of(tree, "input"), **in_kw), "a source of the type %s" % tree["type"])
            raises(Exception, lambda: make_sink(params_of(tree, "output"), **out_kw), "a sink of the type %s" % tree["type"])
        # sinks are no sources
        raises(Exception, lambda: make_source(params_of({"type": "Sink"}, "input"), eval_context={"Sink": ListSink}, **in_kw), "a sink as a source")
        raises(Exception, lambda: make_sink(params_of({"type": "mine"}, "output"), eval_context={"mine": own_source}, **out_kw), "a source as a sink")
        # no namespace but that which is asked for counts
        os.makedirs(where)
        for asked in ("store", "in"):
            for default, path_, make, key in (("input", os.path.join(tmp, "map"), make_source, "input_namespace"), ("output", where, make_sink, "output_namespace")):
                if default == "input":
                    with open(path_, "w"):
                        pass
                good = Parameters.from_mapping({default: {"path": path_, "type": "file-map"}})
                make(good)
                raises(Exception, lambda: make(good, **{key: asked}), "a store of a namespace which is missing")
                raises(Exception, lambda: make(Parameters.from_mapping({"path": path_, "type": "file-map"}), **{key: asked}), "a store of a namespace which is missing")
                raises(Exception, lambda: make(Parameters.from_mapping({asked: {}, default: {"path": path_, "type": "file-map"}}), **{key: asked}), "a store of an empty namespace")
        # nothing at all
        raises(Exception, lambda: make_source(Parameters.empty(), **in_kw), "a source without parameters")
    same(open_files(tmp), [], "files left open")


def doc_id_to_file_map_probe():
    import shutil
    import tempfile

    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "map")
        with open(p, "w") as f:
            f.write("a\t%s\n" % p)
        try:
            kv.char_key_value_source_from_params(Parameters.from_mapping({"input": {"docIdToFileMap": p}}))
        except ParameterError:
            return True
        return False
    finally:
        shutil.rmtree(d)


def index_key_probe():
    import shutil
    import tempfile

    d = tempfile.mkdtemp()
    try:
        with kv.char_key_value_sink_from_params(Parameters.from_mapping({"output": {"path": d}})) as s:
            try:
                s.put("_index", "value")
            except Exception:  # noqa
                return False
        with open(os.path.join(d, "_index")) as f:
            return f.read() != "value"
    finally:
        shutil.rmtree(d)


def lost_in_index_probe(key):
    def probe():
        import shutil
        import tempfile

        d = tempfile.mkdtemp()
        try:
            try:
                with kv.char_key_value_sink_from_params(Parameters.from_mapping({"output": {"path": d}})) as s:
                    s.put(key, "value")
            except (ValueError, RuntimeError):
                return False
            try:
                with kv.KeyValueSource.from_doc_id_to_file_map(os.path.join(d, "_index")) as s:
                    return set(s.keys()) != {key} or s[key] != "value"
            except Exception:  # noqa
                return True
        finally:
            shutil.rmtree(d)

    return probe


def check_undecodable(case, ctx):
    """Bytes kept by others, read as text: the text which they are, or an error."""
    how, pairs = case
    pairs = dict(pairs)
    tmp = Path(ctx.tmp())
    ctx.label(how)
    if how == "zip":
        with KeyValueSink.zip_bytes_sink(tmp / "z") as sink:
            for k, v in pairs.items():
                sink.put(k, v)
        source = KeyValueSource.zip_character_source(tmp / "z")
    elif how == "map":
        for i, (k, v) in enumerate(pairs.items()):
            (tmp / str(i)).write_bytes(v)
        source = KeyValueSource.from_path_mapping({k: tmp / str(i) for i, k in enumerate(pairs)})
    else:
        with tarfile.open(str(tmp / "t"), "w:gz") as t:
            for k, v in pairs.items():
                info = tarfile.TarInfo(k)
                info.size = len(v)
                t.addfile(info, io.BytesIO(v))
        source = KeyValueLinearSource.str_linear_source_from_tar_gz(tmp / "t")
    want = {}
    for k, v in pairs.items():
        try:
            want[k] = v.decode("utf-8")
        except UnicodeDecodeError:
            want[k] = None
    ctx.mark(None in want.values())
    if how == "tgz":
        with source as s:
            if None in want.values():
                raises(UnicodeDecodeError, lambda: list(s.items()), "items of which some are no texts")
            else:
                same(dict(s.items()), want, "items")
        return
    with source as s:
        for k, v in want.items():
            if v is None:
                raises(UnicodeDecodeError, lambda: s[k], "a value which is no text")
                raises(UnicodeDecodeError, lambda: s.get(k, "default"), "a value which is no text")
            else:
                same_typed(s[k], v, "value")
                same_typed(s.get(k), v, "value")


def check_many(case, ctx):
    """Tens to thousands of keys."""
    chars, n, what, stride, size = case
    entries = [("dir%d/k%d" % (k % 5, k) if stride > 1 else "k%d" % k, ("%d\n" % k) * (size if k % 10 == 7 else 1)) for k in dict.fromkeys(i * stride % n for i in range(n))]
    if what == "directory":
        check_directory((chars, "directory", (), tuple(("put" if i % 2 else "set", k, v) for i, (k, v) in enumerate(entries)), "ok", "map"), ctx)
    elif what == "map":
        check_map((chars, "path", tuple(entries), None), ctx)
    elif what == "tgz":
        check_tgz((chars, tuple(("dir" if i % 9 == 3 else "file", k, v) for i, (k, v) in enumerate(entries)), "none" if size > 1 else "some", "none", stride > 1, "gz"), ctx)
    elif what == "interpret":
        check_interpret((tuple(entries), "zip", chars, None), ctx)
    else:
        check_wrapped((tuple(entries), chars, 1, None, False, 1), ctx)


keys = st.sampled_from(["k1", "k2", "K3", "dir/k1", "dir/deep/k21", "a b", "\u00e9", "x.txt", "%s", "_indexes", "k.", "..k", "sub.d/x.", "-", "~", "$HOME", "a\\b", "dir.d/k", "K1", ".k", "o//k", "./k9", "dir/./k12", "q//k//1", "up/../k13", "././1", "L" * 150 + "1", "L" * 150 + "2", "L" * 240 + "1", ("M" * 90 + "/") * 3 + "1", ("M" * 90 + "/") * 3 + "2"])
text = st.sampled_from(["", "v", "\u00e9\u4e2d", "line\nline", "\u2028", "\ufeffbom", "v" * 5000]) | st.text(
    st.characters(blacklist_categories=["Cs"], blacklist_characters="\r"), max_size=5)
entries = st.lists(st.tuples(keys, text), max_size=5, unique_by=lambda x: x[0]).map(tuple)
member = st.tuples(st.sampled_from(["file"] * 5 + ["dir"]), st.sampled_from(["k1", "k2", "a.b", "dir/k1", "dir/c.d", "d12", "\u00e9", "z" * 120 + "1", ".a", "./a", "..a", "/k1", "a/", "./dir/./k1"]), text)

PROP = Prop(
    "C23",
    [
        Sub("directory", st.tuples(st.booleans(), st.sampled_from(["directory", "file-map", "no type"]), st.just(()) | st.just(()) | st.just(()) | st.lists(st.sampled_from(["_index", "old", "d1"]), max_size=2, unique=True).map(tuple),
                                   st.lists(st.tuples(st.sampled_from(["put", "put", "set", "number"]), keys, text) | st.tuples(st.sampled_from(["put", "set"]), st.sampled_from(["k1", "K1", "dir/k1"]), st.sampled_from(["v", "w", "ab", "", "\u00e9\u00e9"])), max_size=6).map(tuple), st.sampled_from(["ok", "ok", "fail"]),
                                   st.sampled_from(["map", "params", "params no type"])),
            check_directory, quick=500, thorough=40, rule="two keys, or a directory which is not empty"),
        Sub("map", st.tuples(st.booleans(), st.sampled_from(["mapping", "str", "path", "source"]), entries, st.sampled_from([None] * 6 + ["missing", "missing", "directory", "root", "below a file", "dot", "up"])), check_map, quick=400, thorough=40,
            rule="two keys or more"),
        Sub("tgz", st.tuples(st.booleans(), st.lists(member, max_size=6).map(tuple), st.sampled_from(["none"] + sorted(KEY_FUNCTIONS)), st.sampled_from(["none"] + sorted(NAME_FILTERS)),
                             st.booleans(), st.sampled_from(["gz", "gz", ""])), check_tgz, quick=500, thorough=40, rule="two items or more"),
        Sub("interpret", st.tuples(entries, st.sampled_from(["zip", "map", "no keys"]), st.booleans(), st.sampled_from([None, "k1"])), check_interpret, quick=400, thorough=40,
            rule="there are keys"),
        Sub("wrapped", st.tuples(entries, st.booleans(), st.integers(1, 3), st.none() | st.integers(0, len(FAILURES) - 1), st.sampled_from([False, None, True]), st.integers(1, 2)), check_wrapped, quick=150, thorough=10,
            rule="a failure"),
        Sub("many", st.tuples(st.booleans(), st.integers(10, 150) | st.sampled_from([260, 520]), st.sampled_from(["directory", "map", "tgz", "interpret", "wrapped"]), st.sampled_from([1, 3, 7]), st.sampled_from([1, 40, 4000])),
            check_many, quick=40, thorough=15, rule="all"),
        Sub("undecodable", st.tuples(st.sampled_from(["zip", "map", "tgz"]), st.lists(st.tuples(
                st.sampled_from(["k1", "k2", "a/b"]), st.lists(st.sampled_from([b"a", b"\n", b"\xc3\xa9", b"\xc3", b"\xe4\xb8", b"\xff", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xef\xbb\xbf", b"x" * 70000]), max_size=3).map(b"".join)), max_size=3).map(tuple)),
            check_undecodable, quick=200, thorough=20, rule="bytes which are no text"),
        Sub("params", st.tuples(st.booleans(), st.booleans(), entries, st.sampled_from(["zip", "zip", "directory", "file-map", "no type", "own class", "own context", "refused"]),
                                st.sampled_from([None, None, "altinput"]), st.lists(st.sampled_from(["N", "M"]), max_size=2, unique=True).map(tuple), st.sampled_from([None, None, None, "old", "missing"])),
            check_params, quick=500, thorough=40, rule="there are keys"),
    ],
    assumptions=[
        "keys of directory sinks are relative paths below the directory, none a directory of another, not _index, without tabs, line breaks and white space at their ends (known findings)",
        "texts have no carriage returns (known finding of C19)",
    ],
    findings=[("doc-id-to-file-map", doc_id_to_file_map_probe, ""), ("index-key", index_key_probe, ""),
              ("blanks-in-index", lost_in_index_probe(" k"), ""), ("tab-in-index", lost_in_index_probe("a\tb"), ""), ("line-break-in-index", lost_in_index_probe("a\nb"), "")],
)
