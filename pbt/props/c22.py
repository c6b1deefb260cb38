"""C22 Zip stores: after any history of sessions the store holds exactly what was put, nothing else."""
import json
import os
import warnings
import zipfile
from pathlib import Path

from hypothesis import strategies as st

from core import Prop, Sub, fail, raises, require, same, same_typed
from props.c19 import open_files
from props.c20 import FAILURES, Own
from vistautils.key_value import KeyValueSink, KeyValueSource


SWAPPED = {"k1": "k2", "k2": "dir/k1", "dir/k1": "dir/k2", "dir/k2": "k1", "K1": "a b", "a b": "K1"}
FILENAMES = {
    "identity": lambda k: k,
    "prefixed": lambda k: "data/" + k + ".txt",
    "hex": lambda k: k.encode("utf-8").hex() + "/x",
    "reversed": lambda k: "r" + k[::-1],
    # the files of some keys have the names of other keys
    "swapped": lambda k: SWAPPED.get(k, k),
    # keys of no store have no file name
    "catalogue": lambda k: {"k1": "nosuch", "k2": "f2", "dir/k1": "dir/nosuch", "dir/k2": "f/4"}.get(k, "e" + k if k not in ("nosuch", "dir", "dir/", "__keys__") else ""),
}


def json_keys_in(zip_file):
    try:
        return set(json.loads(zip_file.read("META/index").decode("utf-8")))
    except KeyError:
        return None


def json_keys_out(zip_file, keys):
    zip_file.writestr("META/index", json.dumps(sorted(keys)))


def sink_of(chars, path, names, keys, overwrite):
    kw = {}
    if names != "identity":
        kw["filename_function"] = FILENAMES[names]
    if overwrite is not None:
        kw["overwrite"] = overwrite
    if keys == "json":
        kw.update(keys_in_function=json_keys_in, keys_out_function=json_keys_out)
    elif keys == "none":
        kw.update(keys_in_function=None, keys_out_function=None)
    return (KeyValueSink.zip_character_sink if chars else KeyValueSink.zip_bytes_sink)(path, **kw)


def source_of(chars, path, names, keys):
    kw = {}
    if names != "identity":
        kw["filename_function"] = FILENAMES[names]
    if keys == "json":
        kw["keys_function"] = json_keys_in
    elif keys == "none":
        kw["keys_function"] = None
    return (KeyValueSource.zip_character_source if chars else KeyValueSource.zip_bytes_source)(path, **kw)


ABSENT_KEYS = ["nosuch", "A", "k1 ", "dir", "dir/", "__keys__", "k", ""]


OTHER_FILES = {"__keys", "META/index", "index", "META", "old"}
NEAR = [
    lambda k: k.replace("/", "\\"), lambda k: k.replace("k", "K"), lambda k: "./" + k, lambda k: "/" + k, lambda k: k.strip(), lambda k: k + ".txt",
    lambda k: k.rpartition("/")[2], lambda k: k.partition("/")[0], lambda k: k + " ", lambda k: k.replace("/", "//"), lambda k: k[:-1],
]


def compare(source, model, keys_kind, names, what):
    if keys_kind == "none":
        require(source.keys() is None, what + ": keys of a store which lists none", source.keys())
        raises(NotImplementedError, lambda: list(source.items()), what + ": items of a store which lists no keys")
    else:
        got = source.keys()
        same(set(got), set(model), what + ": keys")
        same(len(got), len(model), what + ": number of keys")
        require(all(k in got for k in model), what + ": membership of keys")
        items = list(source.items())
        same(len(items), len(model), what + ": number of items")
        same(dict(items), model, what + ": items")
        asked = []

        def some(k):
            asked.append(k)
            return len(k) % 2 == 0

        same(dict(source.items(some)), {k: v for k, v in model.items() if len(k) % 2 == 0}, what + ": items by a filter")
        same(sorted(asked), sorted(model), what + ": keys given to the filter")
        same(dict(source.items(lambda k: len(k) % 2)), {k: v for k, v in model.items() if len(k) % 2}, what + ": items by a filter which gives numbers")
        same(list(source.items(lambda k: None)), [], what + ": items by a filter which gives None")
        require(list(source.items(key_filter=lambda k: False)) == [], what + ": items by a filter which rejects all")
    if names == "identity" and "7" in model:
        # the number is not the key
        for ask in (lambda: source[7], lambda: source.get(7)):
            try:
                require(ask() is None, what + ": the value of the key '7' was given for the number 7")
            except (KeyError, TypeError):
                pass
    for k, v in model.items():
        same_typed(source[k], v, what + ": value of %r" % k)
        same_typed(source.get(k), v, what + ": get of %r" % k)
        same_typed(source.get(k, None), v, what + ": get of %r with a default" % k)
        same_typed(source.get(k, "default"), v, what + ": get of %r with a default" % k)
    if names in ("identity", "prefixed", "hex"):
        # nearly the keys which are there
        near = {f(k) for k in model for f in NEAR}
        for k in sorted(near - set(model) - OTHER_FILES, key=lambda k: (len(k), k))[:12]:
            if k and not k.endswith("/"):
                require(source.get(k, NEAR) is NEAR, what + ": default for an absent key", k)
    default = object()
    falsy = ["", b"", 0, False, (), [], str, len, KeyError]
    for k in ABSENT_KEYS:
        if k in model or names == "identity" and k.endswith("/"):
            continue
        raises(KeyError, lambda: source[k], what + ": value of the absent key %r" % k)
        require(source.get(k) is None, what + ": get of an absent key", k)
        require(source.get(k, default) is default, what + ": default for an absent key", k)
        for nothing in falsy[len(model) % 3::3]:
            require(source.get(k, nothing) is nothing, what + ": default for an absent key", k, nothing)


def check_raw(path, model, chars, names, keys_kind, what):
    with zipfile.ZipFile(path) as z:
        have = set(z.namelist())
        extra = {"default": {"__keys"}, "json": {"META/index"}, "none": set()}[keys_kind]
        same(have - extra, {FILENAMES[names](k) for k in model}, what + ": files in the zip file")
        for k, v in model.items():
            same(z.read(FILENAMES[names](k)), v.encode("utf-8") if chars else v, what + ": file of %r" % k)
        require(z.testzip() is None, what + ": the zip file is damaged")
        if keys_kind == "default":
            text = z.read("__keys").decode("utf-8")
            same(sorted(text.split("\n")) if text else [], sorted(model), what + ": lines of __keys")


def check(case, ctx):
    chars, names, keys_kind, existing, sessions, reuse_source = case
    tmp = ctx.tmp()
    path = Path(tmp) / "store.zip"
    model = {}
    if existing == "foreign" and keys_kind == "none":
        with zipfile.ZipFile(path, "w") as z:
            z.writestr(FILENAMES[names]("old"), "old")
        model = {"old": "old" if chars else b"old"}
    elif existing == "junk":
        path.write_bytes(b"not a zip file at all")
        sessions = ((True,) + sessions[0][1:],) + sessions[1:]
    sinks = {}
    kept_source = source_of(chars, path, names, keys_kind)
    raises(Exception, lambda: kept_source["k1"], "use of a source which was not entered")
    raises(Exception, lambda: kept_source.get("k1"), "use of a source which was not entered")
    raises(Exception, kept_source.keys, "use of a source which was not entered")
    sessions_done = 0
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for overwrite, reuse, actions, end in sessions:
            what = "session %d (overwrite %s)" % (sessions_done, overwrite)
            if not (reuse and overwrite in sinks):
                sinks[overwrite] = sink_of(chars, path, names, keys_kind, overwrite)
                raises(Exception, lambda: sinks[overwrite].put("k1", "x" if chars else b"x"), "put before the sink was entered")
            sink = sinks[overwrite]
            if overwrite is not False:
                model = {}
            now = {}

            def run():
                with sink as s:
                    for how, key, text in actions:
                        value = text if chars else text.encode("utf-8", "surrogatepass") + b"\xff"
                        if how in ("put", "set"):
                            if key in model or key in now:
                                if keys_kind == "none" and key not in now:
                                    # without a list of keys duplicates of earlier sessions cannot be refused
                                    continue
                                ctx.mark(label="duplicate")
                                raises((ValueError, RuntimeError), lambda: s.put(key, value), what + ": a duplicate put of %r" % key)
                                continue
                            if any("\ud800" <= c <= "\udfff" for c in key + (text if chars else "")):
                                ctx.mark(label="cannot be encoded")
                                raises(Exception, lambda: s.put(key, value), what + ": a put of a text which cannot be encoded")
                                continue
                            if how == "put":
                                s.put(key, value)
                            else:
                                s[key] = value
                            now[key] = value
                        elif how == "no value":
                            ctx.mark(label="refused")
                            raises(Exception, lambda: s.put(key, None), what + ": a put of None")
                        elif how == "no key":
                            raises(Exception, lambda: s.put(None, value), what + ": a put of the key None")
                        else:
                            ctx.mark(label="refused")
                            raises(Exception, lambda: s.put(key, 17), what + ": a put of a number")
                    if end == "fail":
                        raise failure()

            failure = FAILURES[(len(actions) + sessions_done + len(names)) % len(FAILURES)]
            if end == "fail":
                ctx.label("interrupted")
                raises(failure, run, "a failure within a session")
            else:
                run()
            sessions_done += 1
            raises(Exception, lambda: sink.put("after", "x" if chars else b"x"), "put after the sink was left")
            model = dict(model, **now)
            ctx.mark(sessions_done > 1 and bool(model), "several sessions")
            ctx.label("empty" if not model else "%d keys" % len(model) if len(model) < 5 else "many keys")
            source = kept_source if reuse_source else source_of(chars, path, names, keys_kind)
            with source as src:
                compare(src, model, keys_kind, names, what)
            raises(Exception, lambda: source["k1"], "use of a source which was left")

            def fail_in_session():
                with source:
                    raise failure()

            raises(failure, fail_in_session, "an error in a session on a source")
            raises(Exception, lambda: source["k1"], "use of a source which was left")
            raises(Exception, source.keys, "use of a source which was left")
            check_raw(str(path), model, chars, names, keys_kind, what)
    same(open_files(tmp), [], "files left open")
    same(os.listdir(tmp), ["store.zip"], "files in the directory")


def check_many(case, ctx):
    """Larger stores: each key has its own value, whatever the number of keys and their order."""
    chars, n, stride, appended, big, names = case
    path = Path(ctx.tmp()) / "big.zip"
    keys = ["key%d/%d" % (i * stride % n, i) for i in range(n)]
    if names != "identity" and n > 1:
        # (a store of this key only is a known finding)
        keys.insert(n // 2, "")
        n += 1
    value = lambda k: (k + "\n") * (1 + len(k) * 700 if k.endswith("7") and big else 1)  # noqa
    conv = (lambda v: v) if chars else (lambda v: v.encode("utf-8"))  # noqa
    ctx.mark(n > 20)
    cut = n if not appended else n // 3
    for part, overwrite in ((keys[:cut], True), (keys[cut:], False)):
        with sink_of(chars, path, names, "default", overwrite) as s:
            for k in part:
                s[k] = conv(value(k))
    with source_of(chars, path, names, "default") as s:
        same(set(s.keys()), set(keys), "keys of a larger store")
        for k in keys:
            same(s[k], conv(value(k)), "value in a larger store")
        same(sum(1 for _ in s.items()), n, "number of items of a larger store")


def check_foreign(case, ctx):
    """A zip file made by others, without a list of keys: no keys, but the values are found."""
    chars, entries, names, add = case
    path = Path(ctx.tmp()) / "foreign.zip"
    with zipfile.ZipFile(path, "w") as z:
        for k, v in entries:
            z.writestr(FILENAMES[names](k), v)
    model = {k: v if chars else v.encode("utf-8") for k, v in entries}
    ctx.mark(bool(model))
    with source_of(chars, path, names, "default") as s:
        require(s.keys() is None, "keys of a zip file without a list", s.keys())
        raises(NotImplementedError, lambda: list(s.items()), "items of a zip file without a list of keys")
        for k, v in model.items():
            same_typed(s[k], v, "value of %r" % k)
            same_typed(s.get(k), v, "value of %r" % k)
        raises(KeyError, lambda: s["nosuch"], "an absent key")
        require(s.get("nosuch") is None, "an absent key")
    if add:
        with warnings.catch_warnings(), sink_of(chars, path, names, "default", False) as s:
            warnings.simplefilter("ignore")
            for k in add:
                s.put(k, "new" + k if chars else b"new" + k.encode())
        with source_of(chars, path, names, "default") as s:
            same(set(s.keys()), set(add), "keys after adding to a zip file without a list")
            # also where the zip file had a file of that name
            model.update((k, "new" + k if chars else b"new" + k.encode()) for k in add)
            for k, v in list(model.items()):
                same_typed(s[k], v, "value of %r" % k)
            same(dict(s.items()), {k: model[k] for k in add}, "items after adding to a zip file without a list")


def check_unreadable(case, ctx):
    """A member which cannot be read is neither absent nor anything else: its error is raised."""
    chars, how, where, default = case
    path = Path(ctx.tmp()) / "store.zip"
    texts = {"a": "first", "b": "second " * 40, "c": ""}
    with sink_of(chars, path, "identity", "default", True) as sink:
        for k, v in texts.items():
            sink.put(k, v if chars else v.encode())
    data = bytearray(path.read_bytes())
    at, record = 0, None
    for _ in range(list(texts).index(where) + 1):
        at = record = data.index(b"PK\x01\x02", at)
        at += 4
    if bytes(data[record + 46: record + 47]) != where.encode():
        return
    local = int.from_bytes(data[record + 42: record + 46], "little")
    if how == "encrypted":
        data[local + 6] |= 1
        data[record + 8] |= 1
    elif how == "method":
        for i in (local + 8, record + 10):
            data[i: i + 2] = (77).to_bytes(2, "little")
    elif how == "checksum":
        for i in (local + 14, record + 16):
            data[i] ^= 1
    else:
        data[local] ^= 1
    path.write_bytes(data)
    ctx.mark(label=how)
    with source_of(chars, path, "identity", "default") as source:
        for ask in (lambda: source[where], lambda: source.get(where), lambda: source.get(where, default), lambda: dict(source.items())):
            e = raises((RuntimeError, NotImplementedError, zipfile.BadZipFile), ask, "reading a member which cannot be read (%s)" % how)
            require(not isinstance(e, KeyError), "a member which cannot be read is absent", how, e)
        for k, v in texts.items():
            if k != where:
                same_typed(source[k], v if chars else v.encode(), "another value than the one which cannot be read")
        require(source.get("nosuch", default) is default, "default for an absent key")


def lost_keys_probe(key):
    def probe():
        import shutil
        import tempfile

        d = tempfile.mkdtemp()
        try:
            path = Path(d) / "s.zip"
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    with KeyValueSink.zip_character_sink(path) as s:
                        s.put(key, "value")
            except (ValueError, RuntimeError):
                return False
            with KeyValueSource.zip_character_source(path) as s:
                return set(s.keys()) != {key} or s.get(key) != "value"
        finally:
            shutil.rmtree(d)

    return probe


def check_renamed(case, ctx):
    """Sessions whose files are named by different functions: the keys are those of all of them."""
    chars, keys_kind, sessions = case
    path = Path(ctx.tmp()) / "store.zip"
    kept, last = {}, 0
    for i, (names, puts) in enumerate(sessions):
        with sink_of(chars, path, names, keys_kind, not i) as sink:
            for k in puts:
                v = "%s %d" % (names, i) if chars else b"%d" % i
                if k in kept:
                    ctx.mark(kept[k][0] != i, "a key of an earlier session")
                    raises((ValueError, RuntimeError), lambda: sink.put(k, v), "a second put of %r" % k)
                else:
                    # no file of another key has this name
                    if FILENAMES[names](k) in {FILENAMES[n](q) for q, (_, n, _) in kept.items()}:
                        continue
                    sink.put(k, v)
                    kept[k] = (i, names, v)
        for names in {n for _, n, _ in kept.values()}:
            with source_of(chars, path, names, keys_kind) as source:
                same(set(source.keys()), set(kept), "keys of all sessions")
                for k, (_, n, v) in kept.items():
                    if n == names:
                        same_typed(source[k], v, "value of %r" % k)


key = st.sampled_from(["k1", "k2", "K1", "k1.txt", "dir/k1", "dir/k2", "a b", "\u00e9", "\u4e2d\U0001f600", " lead", "\u2028sep", "/abs", "..", "%d", "{}", "7", "7"]) | st.text(
    st.characters(blacklist_categories=["Cc", "Cs"], blacklist_characters="/"), min_size=1, max_size=4)
keys_mostly = key | st.sampled_from(["k1", "k2", "dir/k1"]) | st.sampled_from(["\ud800", "k\udcff"])
value = st.sampled_from(["", "v", "\u00e9\u4e2d", "line\nline\r\n", "\x00", "\ufeffbom", "v" * 5000, "bad\ud800", "v" * 9000 + "\udc80", "l\r\nl\x0bl\x1c\u2028" * 3000]) | st.text(max_size=6)
action = st.tuples(st.sampled_from(["put"] * 6 + ["set"] * 4 + ["no value", "no key", "number"]), keys_mostly, value)
session = st.tuples(st.sampled_from([False, False, False, True, None]), st.booleans(), st.lists(action, max_size=6).map(tuple), st.sampled_from(["ok", "ok", "ok", "fail"]))

PROP = Prop(
    "C22",
    [
        Sub("history", st.tuples(st.booleans(), st.sampled_from(["identity", "identity", "identity", "swapped"] + sorted(FILENAMES)), st.sampled_from(["default", "default", "default", "json", "none"]),
                                 st.sampled_from(["nothing", "nothing", "foreign", "junk"]), st.lists(session, min_size=1, max_size=4).map(tuple), st.booleans()),
            check, quick=900, thorough=40, rule="several sessions, a duplicate, or a put which is refused"),
        Sub("renamed", st.tuples(st.booleans(), st.sampled_from(["default", "json"]), st.lists(st.tuples(st.sampled_from(["identity", "prefixed", "reversed", "hex"]),
                                 st.lists(st.sampled_from(["k1", "k2", "a", "dir/k1", "\u00e9"]), min_size=1, max_size=4).map(tuple)), min_size=2, max_size=4).map(tuple)),
            check_renamed, quick=150, thorough=20, rule="a key of an earlier session is put again"),
        Sub("unreadable", st.tuples(st.booleans(), st.sampled_from(["encrypted", "method", "checksum", "header"]), st.sampled_from("abc"), st.sampled_from([None, "d", b"", 0])),
            check_unreadable, quick=60, thorough=5, rule="a member cannot be read"),
        Sub("many", st.tuples(st.booleans(), st.integers(1, 150) | st.sampled_from([260, 1100]), st.sampled_from([1, 7, 31]), st.booleans(), st.booleans(), st.sampled_from(["identity", "prefixed", "reversed"])), check_many, quick=25, thorough=10,
            rule="more than 20 keys"),
        Sub("foreign", st.tuples(st.booleans(), st.lists(st.tuples(st.sampled_from(["k1", "dir/k1", "\u00e9", "x"]), value.filter(lambda v: not any("\ud800" <= c <= "\udfff" for c in v))), max_size=3, unique_by=lambda x: x[0]).map(tuple),
                                 st.sampled_from(sorted(FILENAMES)), st.lists(st.sampled_from(["added", "k1", "x", "\u00e9"]), max_size=3, unique=True).map(tuple)), check_foreign, quick=150, thorough=10, rule="files are there"),
    ],
    assumptions=[
        "keys of zip stores are no empty texts, have no line breaks or NULs, no slash at their end, and are not __keys (known findings)",
        "the file name function maps different keys to different names",
        "a duplicate put is refused with a ValueError (the code) or a RuntimeError (its documentation)",
    ],
    findings=[
        ("newline-in-key", lost_keys_probe("two\nlines"), ""),
        ("key-of-key-list", lost_keys_probe("__keys"), ""),
        ("nul-in-key", lost_keys_probe("a\0b"), ""),
        ("empty-key", lost_keys_probe(""), ""),
    ],
)
