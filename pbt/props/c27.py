"""C27 Checkpoints: a persistent set of names, shared by every handle on the directory."""
import os
from pathlib import Path

from hypothesis import strategies as st

from core import Prop, Sub, raises, require, same
from vistautils.checkpoints import Checkpoints

NAMES = ["a", "A", "b", "ab", "a.b", ".a", "a b", "caf\u00e9", "\u4e2d", "-r", "~", "a~", "%41", "x" * 60, "*", "#", "a\nb", " ",
         "a.", "a..", "a ", " a", "a. ", "a.txt", "a.A", "e\u0301", "\u00e9", "a\tb", "0", "00", "...", "a,b", "x" * 61, "a.tmp", "a.lock", ".tmp", "a.bak", "a.new", "a.part", "a.old", "a.swp", ".a.tmp", ".a.swp", "tmp", "a.0", "a.1", "a_", "_a", "a-", "a.done", "a.ckpt", "a~1", "ss", "\u00df", "K", "\u212a"]


def snapshot(path):
    out = {}
    for root, dirs, files in os.walk(path):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, path)] = fh.read()
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), path)] = None
    return out


def check(case, ctx):
    subdir, as_str, relative, link, own, ops = case
    all_names = NAMES + sorted({op[2] for op in ops if op[0] in ("set", "over")} | set(own))
    root = Path(ctx.tmp())
    outside = root / "outside"
    outside.mkdir()
    (outside / "a").write_text("keep")
    directory = root / "base" / subdir
    sibling = root / "base-other"
    if relative:
        (root / "base").mkdir(exist_ok=True)
    sibling.mkdir()
    (sibling / "b").write_text("keep")
    if link:
        # the directory may be given as a link to it
        (root / "real").mkdir()
        directory = root / "base" / (subdir if subdir != "." else "link")
        directory.parent.mkdir(parents=True, exist_ok=True)
        directory.symlink_to(root / "real", target_is_directory=True)
        if subdir == ".":
            subdir = "link"
        ctx.label("link")
    arg = str(directory) if as_str else directory
    if relative:
        # the working directory is that of the process: nothing else runs beside
        keep, home = os.getcwd(), os.environ.get("HOME")
        os.chdir(str(root / "base"))
        os.environ["HOME"] = str(outside)
        arg = subdir if as_str else Path(subdir)
        try:
            histories(ctx, arg, directory, ops, all_names, outside, sibling)
        finally:
            os.chdir(keep)
            if home is None:
                del os.environ["HOME"]
            else:
                os.environ["HOME"] = home
    else:
        histories(ctx, arg, directory, ops, all_names, outside, sibling)


def check_many(case, ctx):
    """Hundreds of names, set, reset and set again."""
    n, stride, length = case
    name = lambda i: "n" * length + str(i)  # noqa
    directory = Path(ctx.tmp()) / "checkpoints"
    one, other = Checkpoints.from_directory(directory), Checkpoints.from_directory(str(directory))
    ctx.mark()
    model = set()
    for turn in range(3):
        for i in range(0, n, stride + turn):
            (one if i % 2 else other).set(name(i))
            model.add(name(i))
        for h in (one, other, Checkpoints.from_directory(directory)):
            for i in range(n):
                same(name(i) in h, name(i) in model, "%r in turn %d" % (name(i), turn))
        (one, other)[turn % 2].reset_all()
        model = set()
        for h in (one, other, Checkpoints.from_directory(directory)):
            require(not any(name(i) in h for i in range(n)), "a name is there after a reset of many")


def check_paths(case, ctx):
    """Names with slashes: each stands for itself where it can be set, and else nothing changes."""
    there, names, links = case
    root = Path(ctx.tmp())
    directory = root / "checkpoints"
    one, other = Checkpoints.from_directory(directory), Checkpoints.from_directory(str(directory))
    for d in there:
        (directory / d).mkdir(parents=True, exist_ok=True)
    for i in range(links):
        # nobody's name, as what it leads to is not there
        (directory / ("link%d" % i)).symlink_to(root / ("target%d" % i))
    related = set(names) | {n.replace("/", c) for n in names for c in ("_", "-", "", ".", "%2F", "\\")} | {n.rsplit("/", 1)[1] for n in names} | {"link0", "link1"}
    model = set()
    for n in names:
        try:
            one.set(n)
        except OSError:
            ctx.label("refused")
        else:
            ctx.mark(label="set")
            model.add(n)
        for h in (one, other, Checkpoints.from_directory(directory)):
            for r in sorted(related):
                same(r in h, r in model, "%r after setting %r" % (r, n))
    other.reset_all()
    for i in range(links):
        (root / ("target%d" % i)).write_text("")
    for h in (one, other, Checkpoints.from_directory(directory)):
        for r in sorted(related):
            require(r not in h, "%r after a reset" % r)
    same(sorted(p.name for p in root.iterdir() if p.name != "checkpoints"), ["target%d" % i for i in range(links)], "files beside the directory")


def histories(ctx, arg, directory, ops, all_names, outside, sibling):
    handles = [Checkpoints.from_directory(arg)]
    require(directory.is_dir(), "the directory was not created")
    model = set()
    resets = sets = 0
    for op in ops:
        h = handles[op[1] % len(handles)]
        if op[0] == "set":
            h.set(op[2])
            model.add(op[2])
            sets += 1
        elif op[0] == "over":
            # there is a file of that name already, which is not empty
            (directory / op[2]).write_text("something" * ((len(op[2]) % 3) ** 9 * 20 + 1), encoding="utf-8")
            h.set(op[2])
            model.add(op[2])
            sets += 1
        elif op[0] == "reset":
            if model:
                resets += 1
            h.reset_all()
            model = set()
        elif op[0] == "backup":
            # the files in the directory get another name, elsewhere
            for i, f in enumerate(sorted(directory.rglob("*"))):
                if f.is_file():
                    (outside.parent / "backup").mkdir(exist_ok=True)
                    os.link(str(f), str(outside.parent / "backup" / str(len(os.listdir(str(outside.parent / "backup"))))))
        elif op[0] == "open":
            handles.append(Checkpoints.from_directory(arg))
        else:
            raises(TypeError, lambda: h.set(op[2]), "set with a %s" % type(op[2]).__name__)
            raises(TypeError, lambda: op[2] in h, "a %s in checkpoints" % type(op[2]).__name__)
        for i, other in enumerate(handles):
            for name in all_names:
                same(name in other, name in model, "%r in handle %d after %r" % (name, i, op))
    fresh = Checkpoints.from_directory(directory)
    for name in all_names:
        same(name in fresh, name in model, "%r in a fresh handle" % name)
    same(snapshot(outside), {"a": b"keep"}, "a directory beside")
    same(snapshot(sibling), {"b": b"keep"}, "a directory beside")
    ctx.label("handles=%d" % min(len(handles), 3))
    ctx.mark(resets > 0 and sets > 1, "reset-after-set")
    ctx.mark(sets > 1 and len(handles) > 1, "several-handles")


OWN = st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="/\0"), min_size=1, max_size=12).filter(lambda n: n not in (".", ".."))
names = st.sampled_from(NAMES) | OWN
ops = st.one_of(
    st.tuples(st.just("set"), st.integers(0, 3), names),
    st.tuples(st.just("set"), st.integers(0, 3), names),
    st.tuples(st.just("set"), st.integers(0, 3), st.sampled_from(["a", "A", "ab"])),
    st.tuples(st.just("over"), st.integers(0, 3), names),
    st.tuples(st.just("open"), st.just(0)),
    st.tuples(st.just("backup"), st.just(0)),
    st.tuples(st.just("reset"), st.integers(0, 3)),
    st.tuples(st.just("bad"), st.integers(0, 3), st.sampled_from([1, None, b"a", ("a",), True])),
)

AFFIXES = ["%s.tmp", ".%s", "%s~", "%s.lock", "%s.part", "%s.new", "%s.bak", "%s.old", ".%s.tmp", ".%s.swp", "%s.1", "%s.", "%s ", " %s", "tmp%s", "_%s", "%s_", "%s-", "#%s#", "%s.done",
           "%s.json", "%s.txt", "%s%%", "~%s", "%s\n", "%s.0", "%s0", "%s%s", "%s.%s", "%s.partial", "%s.ckpt", "%s.checkpoint"]


@st.composite
def related(draw):
    """Names of which some are those of others with something before or after."""
    base = draw(st.sampled_from(["a", "x", "done", "A b", "x" * 60]) | OWN)
    some = [base] + [a.replace("%s", base).replace("%%", "%") for a in draw(st.lists(st.sampled_from(AFFIXES), min_size=1, max_size=3))]
    some = [n for n in some if len(n.encode()) < 230]
    steps = draw(st.lists(st.tuples(st.just("set"), st.integers(0, 3), st.sampled_from(some)) | ops, min_size=1, max_size=8))
    return draw(st.sampled_from([".", "x"])), draw(st.booleans()), False, False, tuple(some), [("set", 0, n) for n in draw(st.permutations(some))] + steps


PROP = Prop(
    "C27",
    [
        Sub(
            "history",
            st.tuples(st.sampled_from([".", "x", "run[1]", "[!a]/b*", "{x}", "x?y", "%s {0}", "a#b", "deep/er/est", "with space", "~", "~/x", "$HOME", "a.b", "%41", "..x", "x ", " x", "x. ", "x\n", "x\t", "x.", " "]), st.booleans(), st.booleans(), st.sampled_from([False, False, True]),
                      st.lists(OWN, max_size=2).map(tuple), st.lists(ops, max_size=12)),
            check, 500, 40, "several marks through several handles, or a reset after marks",
        ),
        Sub("related", related(), check, 300, 20, "several marks through several handles, or a reset after marks"),
        Sub("paths", st.tuples(st.lists(st.sampled_from(["sub", "sub/deep", "a b"]), max_size=2, unique=True).map(tuple),
                               st.lists(st.sampled_from(["sub/x", "sub/y", "sub/deep/x", "a b/x", "none/x", "sub/X"]), min_size=1, max_size=4).map(tuple), st.integers(0, 2)), check_paths, 100, 10, "a name is set"),
        Sub("many", st.tuples(st.integers(10, 200) | st.sampled_from([600, 1500, 2100]), st.integers(1, 3), st.sampled_from([1, 1, 100])), check_many, 20, 15, "all"),
    ],
    assumptions=["names are legal file names, or paths below the directory", "nothing else changes the directory"],
)
