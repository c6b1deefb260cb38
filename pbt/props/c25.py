"""C25 A downsampled store is a deterministic sample of the input."""
import os
import random
import zipfile

from hypothesis import strategies as st

from core import Prop, Sub, raises, require, run_program, run_python, same
from props.c16 import snapshot
from props.c19 import open_files
from props.c24 import entries, kinds, parameters_file, quietly, read_zip, write_store
from vistautils.parameters import ParameterError
from vistautils.scripts import downsample_key_value_store


def check_sample(case, ctx):
    stored, kind, n, seed, nested, noise, existing = case
    tmp = ctx.tmp()
    model = dict(stored)
    given = write_store(kind, os.path.join(tmp, "in"), model)
    out = os.path.join(tmp, "new dir", "out.zip") if nested else os.path.join(tmp, "out.zip")
    if existing and not nested:
        write_store("zip", out, {"stale": b"stale"})
    tree = {"input": given, "num_to_sample": n, "output_zip_path": out}
    if seed is not None:
        tree["random_seed"] = seed
    before = {p: c for p, c in snapshot(tmp).items() if p != out}
    random.seed(noise)
    quietly(downsample_key_value_store.main, tree)
    after = snapshot(tmp)
    require(all(after.get(p) == c for p, c in before.items()), "the input was changed", sorted(before), sorted(after))
    same(sorted(set(after) - set(before)), sorted([out, os.path.dirname(out)] if nested else [out]), "files made")
    same(open_files(tmp), [], "files left open")
    ctx.mark(0 < n < len(model), "fewer than there are")
    ctx.label(kind, "seed" if seed is not None else "no seed")
    sample = read_zip(out)
    same(len(sample), min(n, len(model)), "size of the sample")
    require(set(sample.items()) <= set(model.items()), "the sample is not a part of the input", sample, model)
    # the same parameters give the same sample, whatever else uses random numbers
    again = os.path.join(tmp, "again.zip")
    random.seed(noise + 1)
    quietly(downsample_key_value_store.main, dict(tree, output_zip_path=again))
    same(read_zip(again), sample, "the same sample once more")
    same(list(read_zip(again)), list(sample), "the order of the same sample")


def check_larger(case, ctx):
    """Stores of more pairs, and numbers around the number of pairs."""
    size, less, kind, seed = case
    tmp = ctx.tmp()
    n = max(1, size - less)
    ctx.mark(n < size)
    # some of the keys differ in their case only
    model = {("KEY %d" if i % 2 else "key %d") % (i // 2 * 7): b"%d" % i for i in range(size)}
    tree = {"input": write_store(kind, os.path.join(tmp, "in"), model), "num_to_sample": n,
            "output_zip_path": os.path.join(tmp, "out.zip"), "random_seed": seed}
    quietly(downsample_key_value_store.main, tree)
    sample = read_zip(tree["output_zip_path"])
    same(len(sample), min(n, size), "size of the sample")
    require(set(sample.items()) <= set(model.items()), "the sample is not a part of the input", sample, model)
    # the order in which the store has its keys does not matter
    tree = dict(tree, input=write_store(kind, os.path.join(tmp, "in other order"), dict(reversed(list(model.items())))))
    quietly(downsample_key_value_store.main, tree)
    same(list(read_zip(tree["output_zip_path"]).items()), list(sample.items()), "the sample of the same pairs in another order")


def check_many(case, ctx):
    """Thousands of pairs."""
    size, n, kind, seed = case
    n = n if n > 0 else size + n
    check_larger((size, size - n, kind, seed), ctx)


def check_refused(case, ctx):
    what, kind = case
    tmp = ctx.tmp()
    ctx.mark(label=str(what))
    tree = {
        "input": write_store(kind, os.path.join(tmp, "in"), {"k1": b"1", "k2": b"2"}),
        "num_to_sample": 1,
        "output_zip_path": os.path.join(tmp, "out.zip"),
    }
    before = snapshot(tmp)
    if what == "no number":
        del tree["num_to_sample"]
    elif what == "no output":
        del tree["output_zip_path"]
    elif what == "no input":
        del tree["input"]
    elif what == "seed":
        tree["random_seed"] = "seed"
    else:
        tree["num_to_sample"] = what
    raises(ParameterError, lambda: quietly(downsample_key_value_store.main, tree), "sampling with bad parameters (%s)" % (what,))
    same(snapshot(tmp), before, "files after the parameters were refused")


def check_deterministic(case, ctx):
    n_keys, n, seed, kind = case
    tmp = ctx.tmp()
    given = write_store(kind, os.path.join(tmp, "in"), {"key %d" % i: b"%d" % i for i in range(n_keys)})
    ctx.mark(n_keys > n)
    results = []
    for hash_seed in (1, 2, 5):
        out = os.path.join(tmp, "out%d.zip" % hash_seed)
        tree = {"input": given, "num_to_sample": n, "output_zip_path": out}
        if seed is not None:
            tree["random_seed"] = seed
        run_python(
            "from vistautils.scripts.downsample_key_value_store import main\n"
            "from vistautils.parameters import Parameters\n"
            "main(Parameters.from_mapping(%r))" % tree, hash_seed=hash_seed)
        with zipfile.ZipFile(out) as z:
            results.append((list(read_zip(out)), z.namelist()))
    same(results[1], results[0], "sample in another process")
    same(results[2], results[0], "sample in another process")


def check_spread(case, ctx):
    """Samples with different seeds differ: no key is always there, or never."""
    n_keys, n, kind, first = case
    tmp = ctx.tmp()
    model = {"key %d" % i: b"%d" % i for i in range(n_keys)}
    given = write_store(kind, os.path.join(tmp, "in"), model)
    ctx.mark()
    out = os.path.join(tmp, "out.zip")
    seen = []
    # each key is missed (or taken) by all samples with a probability below 1e-20
    for seed in range(first, first + 120):
        quietly(downsample_key_value_store.main, {"input": given, "num_to_sample": n, "output_zip_path": out, "random_seed": seed})
        seen.append(set(read_zip(out)))
    same(set.union(*seen), set(model), "keys which some seed samples")
    same(set.intersection(*seen), set(), "keys which all seeds sample")


def check_spread_many(case, ctx):
    """No part of a large store is out of reach."""
    size, n, seeds, kind, first = case
    tmp = ctx.tmp()
    ctx.mark()
    names = ["key %05d" % (i * 7919 % 100003) for i in range(size)]
    given = write_store(kind, os.path.join(tmp, "in"), {k: b"" for k in names})
    out = os.path.join(tmp, "out.zip")
    seen = set()
    for seed in range(first, first + seeds):
        quietly(downsample_key_value_store.main, {"input": given, "num_to_sample": n, "output_zip_path": out, "random_seed": seed})
        seen |= set(read_zip(out))
    # each eighth is missed by all samples with a probability below 1e-20 (at least 400 draws)
    for what, order in (("as stored", names), ("sorted", sorted(names))):
        for i in range(8):
            require(seen & set(order[i * size // 8:(i + 1) * size // 8]), "keys in one eighth of the store (%s) which no seed samples" % what, i)


def check_seeds(case, ctx):
    """Seeds which differ give different samples, however far apart they are."""
    n_keys, less, kind, first = case
    tmp = ctx.tmp()
    ctx.mark()
    given = write_store(kind, os.path.join(tmp, "in"), {"key %d" % i: b"%d" % i for i in range(n_keys)})
    out = os.path.join(tmp, "out.zip")
    seen = {}
    for d in [0, 1, 2, 10, 100, 128, 255, 256, 1000, 1024, 2 ** 16, 10 ** 6, 2 ** 31, 2 ** 32, 10 ** 9, 10 ** 12, 2 ** 64]:
        quietly(downsample_key_value_store.main, {"input": given, "num_to_sample": n_keys // 2 - less, "output_zip_path": out, "random_seed": first + d})
        sample = frozenset(read_zip(out))
        require(sample not in seen, "two seeds give the same sample", first + d, seen.get(sample))
        seen[sample] = first + d


def check_program(case, ctx):
    stored, n, kind, override = case
    tmp = ctx.tmp()
    model = dict(stored)
    ctx.mark(n < len(model))
    out = os.path.join(tmp, "out.zip")
    tree = {"input": write_store(kind, os.path.join(tmp, "in"), model), "num_to_sample": n, "output_zip_path": out + "x" if override else out}
    run_program("vistautils.scripts.downsample_key_value_store",
                [parameters_file(tree, tmp)] + (["-p", "output_zip_path", out] if override else []))
    sample = read_zip(out)
    same(len(sample), min(n, len(model)), "size of the sample")
    require(set(sample.items()) <= set(model.items()), "the sample is not a part of the input", sample, model)


PROP = Prop(
    "C25",
    [
        Sub("sample", st.tuples(entries, kinds, st.sampled_from([1, 1, 2, 3, 4, 5, 7, 11, 50, 10 ** 6]), st.sampled_from([None, None, 0, 1, 2, -3, 99]), st.booleans(), st.integers(0, 5), st.booleans()), check_sample,
            quick=500, thorough=60, rule="fewer pairs are sampled than there are"),
        Sub("larger", st.tuples(st.integers(10, 200), st.sampled_from([-5, 0, 1, 1, 2, 3, 5, 8, 13, 40, 150]), st.sampled_from(["zip", "map"]), st.integers(0, 10 ** 6)), check_larger,
            quick=120, thorough=60, rule="fewer pairs are sampled than there are"),
        Sub("many", st.tuples(st.sampled_from([1001, 1025, 2049, 4097, 10001]), st.sampled_from([-1, 0, 1000, 5, 700, 10 ** 6]), st.sampled_from(["map", "map", "zip"]), st.integers(0, 10 ** 6)), check_many,
            quick=6, thorough=10, rule="fewer pairs are sampled than there are"),
        Sub("refused", st.tuples(st.sampled_from([0, -1, "many", 1.5, "no number", "no output", "no input", "seed"]), kinds), check_refused, quick=60, thorough=3, rule="all"),
        Sub("deterministic", st.tuples(st.integers(2, 40), st.integers(1, 20), st.sampled_from([None, 1, 7]), st.sampled_from(["zip", "map"])), check_deterministic, quick=5, thorough=20, rule="fewer pairs are sampled than there are"),
        Sub("deterministic_large", st.tuples(st.sampled_from([257, 300, 1025]), st.sampled_from([3, 100, 256, 300, 2000]), st.sampled_from([None, 1, 7]), st.sampled_from(["zip", "map"])), check_deterministic, quick=4, thorough=20, rule="fewer pairs are sampled than there are"),
        Sub("spread", st.sampled_from([2, 3, 4, 6]).flatmap(lambda k: st.tuples(st.just(k), st.just(k // 2), st.sampled_from(["zip", "map"]), st.integers(-50, 10 ** 6))), check_spread, quick=6, thorough=40, rule="all"),
        Sub("spread_large", st.tuples(st.integers(130, 200), st.integers(64, 66), st.sampled_from(["zip", "map"]), st.integers(0, 10 ** 6)), check_spread, quick=2, thorough=10, rule="all"),
        Sub("spread_many", st.sampled_from([(20, 20), (40, 10), (100, 4), (200, 2), (500, 1)]).flatmap(
            lambda p: st.tuples(st.sampled_from([1500, 2048, 3000, 5000, 9000]), st.just(p[0]), st.just(p[1]), st.sampled_from(["zip", "zip", "map"]), st.integers(0, 10 ** 6))), check_spread_many, quick=4, thorough=20, rule="all"),
        Sub("seeds", st.tuples(st.integers(60, 90), st.integers(0, 5), st.sampled_from(["zip", "map"]), st.integers(0, 10 ** 6)), check_seeds, quick=6, thorough=20, rule="all"),
        Sub("program", st.tuples(entries, st.sampled_from([1, 2, 5]), kinds, st.booleans()), check_program, quick=6, thorough=20, rule="fewer pairs are sampled than there are"),
    ],
    assumptions=["keys have no tabs or line breaks, which maps of files cannot express"],
)
