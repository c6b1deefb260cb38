"""C24 Splitting and joining stores loses, adds and changes nothing."""
import json
import os
import random
import warnings
import zipfile
from pathlib import Path

from hypothesis import strategies as st

from core import Prop, Sub, fail, raises, require, run_program, run_python, same, same_typed
from props.c16 import snapshot
from props.c19 import open_files
from props.c33 import clean_logging
from vistautils.key_value import KeyValueSink, KeyValueSource
from vistautils.parameters import ParameterError, Parameters
from vistautils.scripts import join_key_value_stores, split_key_value_store


def write_store(kind, path, model):
    """A store of a kind; returns the parameters to read it."""
    if kind == "zip":
        with KeyValueSink.zip_bytes_sink(Path(path)) as s:
            for k, v in model.items():
                s[k] = v
        return {"type": "zip", "path": path}
    os.mkdir(path)
    lines = []
    for i, (k, v) in enumerate(model.items()):
        p = os.path.join(path, str(i))
        with open(p, "wb") as f:
            f.write(v)
        lines.append("%s\t%s\n" % (k, p))
    index = os.path.join(path, "_index")
    with open(index, "w", encoding="utf-8") as f:
        f.write("".join(lines))
    return {"path": index} if kind == "map" else {"type": "file-map", "path": index}


BLANKS = {"k3": " k1", "k4": "k1 ", "k5": "  ", "k6": "\u3000k2", "k7": "\u2028", "k8": "x\x0by", "k9": "K2\t", "k10": "#k1", "k11": "\ufeffk1", "a b": "a  b"}


def with_blanks(entries, kind):
    """The same with keys which zip stores can have, but maps of files cannot."""
    return tuple((BLANKS.get(k, k) if kind == "zip" else k, v) for k, v in entries)


def with_empty(entries):
    """The same with an empty key beside others (a store of this key only is a known finding of C22)."""
    return tuple(("" if k == "x.txt" and len(entries) > 1 else k, v) for k, v in entries)


def named(key, error):
    """Whether a message shows a key, as it is or as Python writes it."""
    return key in str(error) or repr(key)[1:-1] in str(error)


def read_zip(path):
    with KeyValueSource.zip_bytes_source(Path(path)) as s:
        same(len(list(s.items())), len(set(s.keys())), "number of items")
        return dict(s.items())


def read_any(tree):
    if tree.get("type") == "zip":
        return read_zip(tree["path"])
    with KeyValueSource.binary_from_doc_id_to_file_map(Path(tree["path"]) / "_index") as s:
        return dict(s.items())


def quietly(main, tree):
    with clean_logging(), warnings.catch_warnings():
        warnings.simplefilter("error", UserWarning)
        return main(Parameters.from_mapping(tree))


def check_slices(case, ctx):
    entries, kind, n, seed, nested, output, repeat = case
    tmp = ctx.tmp()
    if output == "zip":
        entries = with_blanks(entries, kind)
    model = dict(entries)
    given = write_store(kind, os.path.join(tmp, "in"), model)
    out = os.path.join(tmp, "new", "slices") if nested else os.path.join(tmp, "slices")
    tree = {"input": given, "num_slices": n, "output_dir": out}
    if seed is not None:
        tree["random_seed"] = seed
    before = {p: c for p, c in snapshot(tmp).items()}
    quietly(split_key_value_store.main, tree)
    after = snapshot(tmp)
    require(all(after.get(p) == c for p, c in before.items()), "the input was changed", sorted(before), sorted(after))
    ctx.mark(len(model) > n > 1, "more keys than slices")
    ctx.label(kind, "seed" if seed else "no seed")
    with open(os.path.join(out, "_slices.txt"), encoding="utf-8") as f:
        paths = f.read().split("\n")
    same(len(paths), n, "number of slices listed")
    same(len(set(paths)), n, "number of different slices")
    same({os.path.realpath(p) for p in paths}, {os.path.realpath(os.path.join(out, p)) for p in os.listdir(out) if p != "_slices.txt"}, "slices listed and made")
    parts = [read_zip(p) for p in paths]
    sizes = [len(p) for p in parts]
    require(max(sizes) - min(sizes) <= 1, "sizes of the slices", sizes)
    same(sum(sizes), len(model), "number of keys in all slices")
    union = {}
    for p in parts:
        union.update(p)
    same(union, model, "all slices together")
    if repeat:
        out2 = out + "2"
        random.seed(77)
        quietly(split_key_value_store.main, dict(tree, output_dir=out2))
        for p in paths:
            same(read_zip(p.replace(out, out2, 1)), read_zip(p), "the same split once more")
    # and joined again
    where = os.path.join(tmp, "joined")
    target = {"type": "zip", "path": where}
    if output != "zip":
        os.mkdir(where)
        target = {"type": "directory", "path": where} if output == "directory" else {"path": where}
    quietly(join_key_value_stores.main, {"input_store_list_file": os.path.join(out, "_slices.txt"), "output": target})
    same(read_any(target), model, "all slices joined")
    same(open_files(tmp), [], "files left open")


def check_explicit(case, ctx):
    entries, kind, splits, must, where, extra_line = case
    tmp = ctx.tmp()
    entries = with_blanks(entries, kind)
    model = dict(entries)
    given = write_store(kind, os.path.join(tmp, "in"), model)
    names = [k for k, _ in entries]
    namespace, wanted, missing = {}, {}, []
    for i, (indices, absent, ending) in enumerate(splits):
        keys = [names[j % len(names)] for j in indices] if names else []
        lines = list(keys)
        if absent:
            if absent == "nearly" and names:
                # nearly a key of the input
                absent = [" %s", "%s ", "%s.txt", "./%s", "%s/"][len(keys) % 5] % names[0] if len(names) % 2 else names[0].swapcase()
            lines.insert(len(lines) // 2, absent)
            if absent not in model:
                missing.append(absent)
        if extra_line:
            # blank lines are skipped
            lines.insert(len(lines) // 2, "")
        keys_file = os.path.join(tmp, "keys%d" % i)
        with open(keys_file, "w", encoding="utf-8") as f:
            f.write("\n".join(lines) + ("\n" if ending and lines else ""))
        out = os.path.join(tmp, "out", "split%d.zip" % i)
        namespace["split %d" % i] = {"keys_file": keys_file, "output_file": out}
        wanted[out] = {k: model[k] for k in lines if k in model}
    tree = {"input": given, "explicit_split": namespace}
    if must is not None:
        if where == "inside":
            namespace["must_be_exhaustive"] = must
        elif where == "outside":
            tree["must_be_exhaustive"] = must
        else:
            # the more specific one counts
            namespace["must_be_exhaustive"] = must
            tree["must_be_exhaustive"] = not must
    left_out = set(model) - {k for w in wanted.values() for k in w}
    before = snapshot(tmp)
    run = lambda: quietly(split_key_value_store.main, tree)  # noqa
    ctx.label(kind, "overlapping" if sum(map(len, wanted.values())) > len(set().union(*wanted.values())) else "disjoint")
    if missing:
        ctx.mark(label="key which is not there")
        e = raises(RuntimeError, run, "a split which names a key which is not there")
        require(any(named(k, e) for k in missing), "the missing key is not named", str(e), missing)
    elif must is not False and left_out:
        ctx.mark(label="not exhaustive")
        e = raises(RuntimeError, run, "a split which is not exhaustive")
        require(any(named(k, e) for k in left_out), "the keys left out are not named", str(e), left_out)
    else:
        ctx.mark(len(model) > 1, "split")
        run()
        same(open_files(tmp), [], "files left open")
        for out, want in wanted.items():
            same(read_zip(out), want, "a part of the split")
        same(sorted(os.listdir(os.path.join(tmp, "out"))) if wanted else [], sorted(os.path.basename(o) for o in wanted), "files made")
    after = snapshot(tmp)
    require(all(after.get(p) == c for p, c in before.items()), "the input was changed")


def check_explicit_many(case, ctx):
    """Splits of many keys, with or without a few left out or in two of them."""
    size, n, left_out, twice, must, kind, order = case
    tmp = ctx.tmp()
    model = {"key %d" % (i * 37 % 1009): b"%d" % i for i in range(size)}
    names = list(model)
    random.Random(order).shuffle(names)
    left = names[:left_out]
    parts = [names[left_out + i::n] for i in range(n)]
    if twice:
        parts[0] = parts[0] + parts[-1][:1]
    ctx.mark(left_out > 0, "left out")
    ctx.mark(size > 50)
    namespace = {}
    for i, part in enumerate(parts):
        with open(os.path.join(tmp, "keys%d" % i), "w") as f:
            f.write("\n".join(part))
        namespace["s%d" % i] = {"keys_file": os.path.join(tmp, "keys%d" % i), "output_file": os.path.join(tmp, "out%d.zip" % i)}
    if must is not None:
        namespace["must_be_exhaustive"] = must
    run = lambda: quietly(split_key_value_store.main, {"input": write_store(kind, os.path.join(tmp, "in"), model), "explicit_split": namespace})  # noqa
    if left and must is not False:
        e = raises(RuntimeError, run, "a split of %d keys which leaves %d out" % (size, left_out))
        require(any(named(k, e) for k in left), "the keys left out are not named", str(e), left)
    else:
        run()
        for i, part in enumerate(parts):
            same(read_zip(os.path.join(tmp, "out%d.zip" % i)), {k: model[k] for k in part}, "a part of the split")


def check_join(case, ctx):
    stores, output, comments, fault = case
    tmp = ctx.tmp()
    stores = list(stores)
    if output == "zip":
        stores = [with_empty(with_blanks(e, "zip")) for e in stores]
    paths, union, duplicates = [], {}, set()
    for i, entries in enumerate(stores):
        path = os.path.join(tmp, "store %d.zip" % i)
        write_store("zip", path, dict(entries))
        paths.append(path)
        for k, v in entries:
            if k in union:
                duplicates.add(k)
            union[k] = v
    if fault == "missing":
        paths.insert(len(paths) // 2, os.path.join(tmp, "nosuch.zip"))
    if fault == "twice" and paths:
        # one of them is listed twice, side by side or not
        i = len(paths) // 2
        paths.insert(0 if comments else i, paths[i])
        duplicates.update(dict(stores[i]))
    lines = list(paths)
    if comments:
        lines[:0] = ["# stores", ""]
        lines.append("")
    list_file = os.path.join(tmp, "list")
    with open(list_file, "w") as f:
        f.write("\n".join(lines))
    where = os.path.join(tmp, "joined")
    if output == "zip":
        target = {"type": "zip", "path": where}
    else:
        os.mkdir(where)
        target = {"type": "directory", "path": where} if output == "directory" else {"path": where}
    if fault == "list":
        # the stores themselves instead of a file which lists them
        list_file = list(paths)
    tree = {"input_store_list_file": list_file, "output": target}
    before = snapshot(tmp)
    run = lambda: quietly(join_key_value_stores.main, tree)  # noqa
    ctx.label(output)
    if duplicates:
        ctx.mark(label="duplicate keys")
        e = raises(Exception if fault == "missing" else RuntimeError, run, "stores with a common key")
        require(any(named(k, e) for k in duplicates) or fault == "missing", "the duplicate key is not named", str(e), duplicates)
    elif fault == "missing":
        ctx.mark(label="missing store")
        raises(Exception, run, "a store which does not exist")
    else:
        ctx.mark(len(stores) > 1)
        run()
        same(read_any(target), union, "joined stores")
        same(open_files(tmp), [], "files left open")
    after = snapshot(tmp)
    require(all(after.get(p) == c for p, c in before.items()), "the input was changed")


def check_refused(case, ctx):
    what, kind = case
    tmp = ctx.tmp()
    ctx.mark(label=what)
    model = {"k1": b"1", "k2": b"2"}
    keys_file = os.path.join(tmp, "keys")
    with open(keys_file, "w") as f:
        f.write("k1\nk2\n")
    explicit = {"a": {"keys_file": keys_file, "output_file": os.path.join(tmp, "out.zip")}}
    out = os.path.join(tmp, "slices")
    tree = {"input": write_store(kind, os.path.join(tmp, "in"), model)}
    before = snapshot(tmp)
    if what == "both":
        tree.update(num_slices=2, output_dir=out, explicit_split=explicit)
    elif what == "no output":
        tree.update(num_slices=2)
    elif what == "zero":
        tree.update(num_slices=0, output_dir=out)
    elif what == "negative":
        tree.update(num_slices=-3, output_dir=out)
    elif what == "text":
        tree.update(num_slices="two", output_dir=out)
    elif what == "no keys file":
        del explicit["a"]["keys_file"]
        tree.update(explicit_split=explicit)
    elif what == "missing keys file":
        explicit["a"]["keys_file"] += "x"
        tree.update(explicit_split=explicit)
    elif what == "no output file":
        del explicit["a"]["output_file"]
        tree.update(explicit_split=explicit)
    raises(ParameterError, lambda: quietly(split_key_value_store.main, tree), "splitting with bad parameters (%s)" % what)
    after = snapshot(tmp)
    require(all(after.get(p) == c for p, c in before.items()), "the input was changed")
    if what in ("both", "neither"):
        same(after, before, "files after the parameters were refused")


def check_deterministic(case, ctx):
    """Slices do not depend on how a run of the interpreter happens to hash."""
    n_keys, n, seed, kind = case
    tmp = ctx.tmp()
    model = {"key %d" % i: b"%d" % i for i in range(n_keys)}
    given = write_store(kind, os.path.join(tmp, "in"), model)
    ctx.mark(n_keys > n > 1)
    results = []
    for hash_seed in (1, 2, 5):
        out = os.path.join(tmp, "out%d" % hash_seed)
        tree = {"input": given, "num_slices": n, "output_dir": out}
        if seed is not None:
            tree["random_seed"] = seed
        run_python(
            "from vistautils.scripts.split_key_value_store import main\n"
            "from vistautils.parameters import Parameters\n"
            "main(Parameters.from_mapping(%r))" % tree, hash_seed=hash_seed)
        with open(os.path.join(out, "_slices.txt")) as f:
            results.append([sorted(read_zip(p)) for p in f.read().split("\n")])
    same(results[1], results[0], "slices in another process")
    same(results[2], results[0], "slices in another process")


def parameters_file(tree, tmp, name="my params.yaml"):
    path = os.path.join(tmp, name)
    with open(path, "w", encoding="utf-8") as f:
        json.dump(tree, f)
    return path


def check_program(case, ctx):
    """The programs, run as such, with a parameter file and overrides."""
    entries, n, kind, override = case
    tmp = ctx.tmp()
    model = dict(entries)
    ctx.mark(len(model) > n > 1)
    out = os.path.join(tmp, "slices")
    tree = {"input": write_store(kind, os.path.join(tmp, "in"), model), "num_slices": n, "output_dir": out + "x" if override else out}
    run_program("vistautils.scripts.split_key_value_store",
                [parameters_file(tree, tmp)] + (["-p", "output_dir", out] if override else []))
    with open(os.path.join(out, "_slices.txt"), encoding="utf-8") as f:
        paths = f.read().split("\n")
    same(len(paths), n, "number of slices")
    sizes = [len(read_zip(p)) for p in paths]
    require(max(sizes) - min(sizes) <= 1 and sum(sizes) == len(model), "sizes of the slices", sizes)
    joined = os.path.join(tmp, "joined")
    tree = {"input_store_list_file": os.path.join(out, "_slices.txt"), "output": {"type": "zip", "path": joined}}
    run_program("vistautils.scripts.join_key_value_stores", [parameters_file(tree, tmp)])
    same(read_zip(joined), model, "all slices joined")


def check_seeds(case, ctx):
    """The slices depend on the seed."""
    n_keys, n, kind, first = case
    tmp = ctx.tmp()
    ctx.mark()
    model = {"key %d" % i: b"%d" % i for i in range(n_keys)}
    given = write_store(kind, os.path.join(tmp, "in"), model)
    seen = []
    seeds = [None] + [first + d for d in [0, 1, 2, 1000, 2 ** 16, 2 ** 31, 2 ** 32, 10 ** 9, 10 ** 12][: 9 if n < 4 else 5]]
    for seed in seeds:
        out = os.path.join(tmp, "slices %s" % seed)
        tree = {"input": given, "num_slices": n, "output_dir": out}
        if seed is not None:
            tree["random_seed"] = seed
        quietly(split_key_value_store.main, tree)
        with open(os.path.join(out, "_slices.txt"), encoding="utf-8") as f:
            seen.append(frozenset(frozenset(read_zip(p)) for p in f.read().split("\n")))
    same(len(set(seen)), len(seeds), "number of different splits by different seeds")


def check_few_seeds(case, ctx):
    """Which slice has which key depends on the seed, also where each slice has at most one."""
    n_keys, more, kind, first = case
    tmp = ctx.tmp()
    ctx.mark()
    given = write_store(kind, os.path.join(tmp, "in"), {"key %d" % i: b"%d" % i for i in range(n_keys)})
    seen = set()
    for seed in range(first, first + 8):
        out = os.path.join(tmp, "slices %s" % seed)
        quietly(split_key_value_store.main, {"input": given, "num_slices": n_keys + more, "output_dir": out, "random_seed": seed})
        with open(os.path.join(out, "_slices.txt"), encoding="utf-8") as f:
            seen.add(tuple(frozenset(read_zip(p)) for p in f.read().split("\n")))
    require(len(seen) > 1, "eight seeds give the same slices", seen)


def check_ghosts(case, ctx):
    """A key which the input lists but has no value for is not lost silently."""
    n_keys, at, slices = case
    tmp = ctx.tmp()
    ctx.mark()
    model = {"key %d" % i: b"%d" % i for i in range(n_keys)}
    path = os.path.join(tmp, "in")
    with zipfile.ZipFile(path, "w") as z:
        for k, v in model.items():
            z.writestr(k, v)
        names = list(model)
        names.insert(at, "ghost")
        z.writestr("__keys", "\n".join(names))
    tree = {"input": {"type": "zip", "path": path}, "num_slices": slices, "output_dir": os.path.join(tmp, "out")}
    raises(Exception, lambda: quietly(split_key_value_store.main, tree), "splitting a store which has no value for a key it lists")
    with open(os.path.join(tmp, "list"), "w") as f:
        f.write(path + "\n")
    tree = {"input_store_list_file": os.path.join(tmp, "list"), "output": {"type": "zip", "path": os.path.join(tmp, "joined")}}
    raises(Exception, lambda: quietly(join_key_value_stores.main, tree), "joining a store which has no value for a key it lists")


def check_slices_many(case, ctx):
    """Tens to thousands of keys, and tens to hundreds of slices."""
    n, slices, kind, seed, output = case
    check_slices((tuple(("k%d" % (i * 7 % 5003), b"v%d" % i) for i in range(n)), kind, slices, seed, False, output, n < 300), ctx)


def check_join_many(case, ctx):
    """Tens of stores."""
    n, size, output, twice = case
    stores = [tuple(("k%d.%d" % (i, j), b"%d" % j) for j in range((i * 3 + size) % (size + 1))) for i in range(n)]
    if twice is not None:
        stores[n - 1] += (("k%d.0" % (twice % (n - 1)), b"again"),)
    check_join((tuple(stores), output, False, None), ctx)


keys = st.sampled_from(["k%d" % i for i in range(12)] + ["dir/k", "a b", "\u00e9", "K1", "x.txt"])
values = st.binary(max_size=4) | st.sampled_from([b"", b"\xff\x00", b"v" * 3000, "\u00e9".encode()])
entries = st.lists(st.tuples(keys, values), max_size=14, unique_by=lambda x: x[0]).map(tuple)
few = st.lists(st.tuples(keys, values), max_size=4, unique_by=lambda x: x[0]).map(tuple)
kinds = st.sampled_from(["zip", "zip", "map", "file-map"])
split = st.tuples(st.lists(st.integers(0, 13), max_size=8).map(tuple), st.sampled_from([None] * 6 + ["nosuch", "k", "nearly", "nearly"]), st.booleans())


@st.composite
def explicit(draw):
    e = draw(st.lists(st.tuples(keys, values), max_size=8, unique_by=lambda x: x[0]).map(tuple))
    splits = list(draw(st.lists(split, max_size=4)))
    if draw(st.booleans()) and splits:
        # exhaustive
        i = draw(st.integers(0, len(splits) - 1))
        covered = {x % len(e) for s in splits for x in s[0]} if e else set()
        splits[i] = (splits[i][0] + tuple(x for x in range(len(e)) if x not in covered),) + splits[i][1:]
    return (e, draw(kinds), tuple(splits), draw(st.sampled_from([None, None, True, False])), draw(st.sampled_from(["inside", "inside", "outside", "both"])), draw(st.booleans()))


PROP = Prop(
    "C24",
    [
        Sub("slices", st.tuples(entries, kinds, st.sampled_from([1, 2, 3, 4, 5, 7, 11, 12]), st.sampled_from([None, None, 1, 2, 99]), st.booleans(), st.sampled_from(["zip", "zip", "directory", "no type"]), st.booleans()),
            check_slices, quick=350, thorough=40, rule="more keys than slices, and two slices or more"),
        Sub("explicit", explicit(), check_explicit, quick=500, thorough=40, rule="keys are missing, left out, or two or more are split"),
        Sub("explicit_many", st.tuples(st.integers(2, 160) | st.sampled_from([300, 1100]), st.integers(1, 6) | st.sampled_from([20, 64]), st.sampled_from([0, 0, 1, 1, 2, 30]), st.booleans(), st.sampled_from([None, None, True, False]), kinds, st.integers(0, 99)).filter(lambda c: c[2] < c[0]),
            check_explicit_many, quick=80, thorough=40, rule="keys are left out, or more than 50 are split"),
        Sub("join", st.tuples(st.lists(few, max_size=4).map(tuple), st.sampled_from(["zip", "zip", "directory", "no type"]), st.booleans(), st.sampled_from([None, None, None, "missing", "list", "twice"])), check_join,
            quick=400, thorough=40, rule="two stores or more, duplicate keys, or a missing store"),
        Sub("slices_many", st.tuples(st.integers(15, 200) | st.sampled_from([257, 1100]), st.integers(2, 40) | st.sampled_from([64, 101, 260]), kinds, st.sampled_from([None, 1]), st.sampled_from(["zip", "directory"])), check_slices_many, quick=24, thorough=15, rule="more keys than slices, and two slices or more"),
        Sub("join_many", st.tuples(st.integers(5, 60) | st.sampled_from([110, 150]), st.integers(1, 8), st.sampled_from(["zip", "directory"]), st.none() | st.integers(0, 60)), check_join_many, quick=30, thorough=15, rule="all"),
        Sub("refused", st.tuples(st.sampled_from(["both", "neither", "no output", "zero", "negative", "text", "no keys file", "missing keys file", "no output file"]), kinds), check_refused, quick=60, thorough=2, rule="all"),
        Sub("deterministic", st.tuples(st.integers(2, 40), st.integers(2, 6), st.sampled_from([None, 1, 7]), st.sampled_from(["zip", "map"])), check_deterministic, quick=5, thorough=20, rule="more keys than slices"),
        Sub("seeds", st.tuples(st.integers(60, 80) | st.integers(101, 300), st.integers(2, 5), st.sampled_from(["zip", "map"]), st.integers(1, 10 ** 6)), check_seeds, quick=8, thorough=20, rule="all"),
        Sub("few seeds", st.tuples(st.integers(4, 8), st.integers(0, 2), st.sampled_from(["zip", "map"]), st.integers(1, 1000)), check_few_seeds, quick=8, thorough=20, rule="all"),
        Sub("ghosts", st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(1, 4)), check_ghosts, quick=24, thorough=10, rule="all"),
        Sub("program", st.tuples(entries, st.sampled_from([1, 2, 3]), kinds, st.booleans()), check_program, quick=6, thorough=20, rule="more keys than slices"),
    ],
    assumptions=["keys have no tabs or line breaks, which files of keys and maps of files cannot express"],
)
