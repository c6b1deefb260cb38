"""C26 Converting archives and directories, and printing text at offsets, keep all content."""
import contextlib
import io
import os
import re
import tarfile
import tempfile
import warnings
import zipfile
from pathlib import Path

from hypothesis import strategies as st

from core import Prop, Sub, fail, raises, require, run_program, same
from props.c16 import snapshot
from props.c18 import arguments
from props.c19 import open_files
from props.c24 import parameters_file, quietly, read_any
from vistautils.parameters import ParameterError
from vistautils.scripts import directory_to_key_value_store, tar_gz_to_zip, text_at_offsets


@contextlib.contextmanager
def program(args, tmp):
    """Runs a program's main with arguments, in a scratch directory; gives what it prints."""
    cwd, tempdir = os.getcwd(), tempfile.tempdir
    here, temporary = os.path.join(tmp, "cwd"), os.path.join(tmp, "temporary")
    os.makedirs(here, exist_ok=True)
    os.makedirs(temporary, exist_ok=True)
    out = io.StringIO()
    os.chdir(here)
    tempfile.tempdir = temporary
    try:
        with arguments(args), contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield out
    finally:
        os.chdir(cwd)
        tempfile.tempdir = tempdir


# ---- directories


def stem(name):
    """The name without its last extension."""
    i = name.rfind(".")
    return name[:i] if 0 < i < len(name) - 1 else name


def check_directory(case, ctx):
    files, function, output, links = case
    tmp = ctx.tmp()
    source = os.path.join(tmp, "source")
    os.mkdir(source)
    os.mkdir(os.path.join(tmp, "elsewhere"))
    for i, (name, content) in enumerate(files):
        # some are links to files
        path = os.path.join(tmp, "elsewhere", "f%d" % i) if links and i % links == 0 else os.path.join(source, name)
        with open(path, "wb") as f:
            f.write(content)
        if os.path.dirname(path) != source:
            if len(content) % 2:
                # another name of the same file
                os.link(path, os.path.join(source, name))
            else:
                os.symlink(path, os.path.join(source, name))
    where = os.path.join(tmp, "store")
    if output == "zip":
        target = {"type": "zip", "path": where}
    else:
        os.mkdir(where)
        target = {"type": "directory", "path": where} if output == "directory" else {"path": where}
    tree = {"input_directory": source, "output": target}
    if function is not None:
        tree["key_function"] = function
    before = snapshot(source)
    run = lambda: quietly(directory_to_key_value_store.main, tree)  # noqa
    if function not in (None, "identity", "strip_one_extension"):
        ctx.mark(label="unknown key function")
        raises(ParameterError, run, "an unknown key function")
        same(snapshot(source), before, "the directory read")
        return
    want, duplicates = {}, False
    for name, content in files:
        key = stem(name) if function == "strip_one_extension" else name
        duplicates = duplicates or key in want
        want[key] = content
    ctx.label(output, function or "no function")
    if duplicates and output == "zip":
        ctx.mark(label="duplicate keys")
        raises((ValueError, RuntimeError), run, "a directory with files whose keys are the same")
    elif duplicates:
        # sinks in directories refuse duplicates as well, or keep one of the values
        ctx.label("duplicate keys")
        try:
            run()
        except (ValueError, RuntimeError):
            pass
        else:
            got = read_any(target)
            same(set(got), set(want), "keys of the store")
            for k, v in got.items():
                require(v in [c for n, c in files if stem(n) == k], "a value which no file has", k, v)
    else:
        ctx.mark(len(files) > 1, "many files")
        run()
        same(read_any(target), want, "store made of the directory")
        same(open_files(tmp), [], "files left open")
    same(snapshot(source), before, "the directory read")


# ---- archives


def check_tar(case, ctx):
    base, mode, members, stream, omit, cutoff, existing, relative, order = case
    tmp = ctx.tmp()
    ending, compression = mode
    here = os.path.join(tmp, "cwd")
    os.mkdir(here)
    name = base + ending
    path = os.path.join(here if relative else tmp, name)
    with tarfile.open(path, "w:" + compression) as tar:
        for kind, member, content, mtime in members:
            info = tarfile.TarInfo(member)
            info.mtime = mtime
            if kind == "dir":
                info.type = tarfile.DIRTYPE
                info.mode = 0o755
                tar.addfile(info)
            else:
                info.size = len(content)
                # (other types of plain files as well)
                info.type = [tarfile.REGTYPE, tarfile.REGTYPE, tarfile.AREGTYPE, tarfile.CONTTYPE][(len(content) + len(member)) % 4]
                if member.endswith("/"):
                    info.type = tarfile.REGTYPE
                tar.addfile(info, io.BytesIO(content))
    target = re.sub(r"\.(tar|tgz|tar\.gz)\Z", "", name) + ".zip"
    target = os.path.normpath(os.path.join(here if relative else tmp, target))
    if existing in ("empty", "junk"):
        with open(target, "wb") as f:
            f.write(b"" if existing == "empty" else b"no zip file")
    elif existing:
        with zipfile.ZipFile(target, "w") as z:
            z.writestr("stale", b"stale")
            if members:
                z.writestr(members[0][1], b"stale too")
    args = [name if relative else path]
    flags = ["--dont-stream"] if not stream else []
    if omit:
        flags.append("--omit-large-files")
    if cutoff is not None:
        flags += ["--large-file-cutoff", cutoff]
    args = flags + args if order else args + flags
    limit = 2e9 if cutoff is None else float(cutoff) * 1e9
    # a file's name is kept, but for superfluous dots and slashes when it was unpacked
    form = (lambda m: m) if stream else os.path.normpath
    want = [(form(m), c) for kind, m, c, _ in members if kind == "file" and not (omit and len(c) > limit)]
    omitted = [m for kind, m, c, _ in members if kind == "file" and omit and len(c) > limit]
    before = {p: c for p, c in snapshot(tmp).items() if p != target}
    with program(args, tmp) as out:
        tar_gz_to_zip.main()
    printed = out.getvalue()
    after = snapshot(tmp)
    temporary = os.path.join(tmp, "temporary")
    before.setdefault(temporary, "dir")
    same({p: c for p, c in after.items() if p != target}, before, "files other than the zip file")
    require(target in after, "no zip file was made at the name expected", target, sorted(after))
    ctx.mark(len(want) > 1, "many files")
    ctx.label("streamed" if stream else "unpacked", "omitted" if omitted else "nothing omitted", ending)
    with zipfile.ZipFile(target) as z:
        same(z.testzip(), None, "damaged file in the zip file")
        by_name = {form(i.filename): i for i in z.infolist() if not i.is_dir()}
        same(sorted(form(i.filename) for i in z.infolist() if not i.is_dir()), sorted(m for m, _ in want), "files in the zip file")
        for m, c in want:
            same(z.read(by_name[m]), c, "content of %r" % m)
    for m in omitted:
        require(any("mitting" in line and m in line for line in printed.splitlines()), "an omission was not warned of", m, printed)
    same(sum("mitting" in line for line in printed.splitlines()), len(omitted), "warnings of omissions")
    same("existing" in printed, bool(existing), "warning that a file is removed")
    same(open_files(tmp), [], "files left open")


# ---- text


def check_text(case, ctx):
    parts, start, end, relative = case
    tmp = ctx.tmp()
    text = "".join(parts)
    here = os.path.join(tmp, "cwd")
    os.mkdir(here)
    path = os.path.join(here, "my text.txt")
    with open(path, "wb") as f:
        f.write(text.encode("utf-8"))
    before = snapshot(here)
    with program(["my text.txt" if relative else path, str(start), str(end)], tmp) as out:
        text_at_offsets.main()
    printed = out.getvalue()
    same(snapshot(here), before, "files")
    good_start, good_end = 0 <= start < len(text), start < end <= len(text)
    if good_start and good_end:
        ctx.mark(len(text.encode("utf-8")) > len(text) or "\r" in text, "text beyond ASCII")
        ctx.label("in bounds")
        same(printed, text[start:end] + "\n", "text printed")
    else:
        ctx.label("out of bounds")
        if len(text) > 1:
            ctx.mark()
        if not good_start:
            require("start offset out-of-bounds: %d" % start in printed, "no message about the start", printed)
        if not good_end:
            require("end offset out-of-bounds: %d" % end in printed, "no message about the end", printed)
        require(good_start == ("start offset out-of-bounds" not in printed), "message about the start", printed)
        require(good_end == ("end offset out-of-bounds" not in printed), "message about the end", printed)


def check_cutoff(case, ctx):
    """Without a cutoff of one's own, it is two gigabytes."""
    size, stream = case
    tmp = ctx.tmp()
    ctx.mark()
    path = os.path.join(tmp, "big.tar")
    with tarfile.open(path, "w:") as tar:
        info = tarfile.TarInfo("small")
        info.size = 3
        tar.addfile(info, io.BytesIO(b"abc"))
        info = tarfile.TarInfo("big")
        info.size = size
        tar.addfile(info)  # its content is a hole
        at = tar.fileobj.tell()
    os.truncate(path, at + (size + 511) // 512 * 512 + 1024)
    with program([path, "--omit-large-files"] + ([] if stream else ["--dont-stream"]), tmp):
        tar_gz_to_zip.main()
    with zipfile.ZipFile(os.path.join(tmp, "big.zip")) as z:
        same({i.filename: i.file_size for i in z.infolist()}, {"small": 3}, "files in the zip file without what is larger than 2 GB")


def check_programs(case, ctx):
    """The programs, run as such."""
    files, text, start, end = case
    tmp = ctx.tmp()
    ctx.mark()
    source = os.path.join(tmp, "source")
    os.mkdir(source)
    for name, content in files:
        with open(os.path.join(source, name), "wb") as f:
            f.write(content)
    target = {"type": "zip", "path": os.path.join(tmp, "store")}
    run_program("vistautils.scripts.directory_to_key_value_store",
                [parameters_file({"input_directory": source, "output": target}, tmp)])
    same(read_any(target), dict(files), "store made of the directory")
    with tarfile.open(os.path.join(tmp, "t.tgz"), "w:gz") as tar:
        tar.add(source, "all")
    run_program("vistautils.scripts.tar_gz_to_zip", [os.path.join(tmp, "t.tgz")])
    with zipfile.ZipFile(os.path.join(tmp, "t.zip")) as z:
        same({n: z.read(n) for n in z.namelist() if not n.endswith("/")}, {"all/" + n: c for n, c in files}, "files in the zip file")
    path = os.path.join(tmp, "text")
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    same(run_program("vistautils.scripts.text_at_offsets", [path, str(start), str(end)]), text[start:end] + "\n", "text printed")


names = st.sampled_from(["a", "a.txt", "a.xml", "a.txt.xml", "b.tar.gz", ".hidden", ".hidden.txt", "a b.c d", "\u00e9.txt", "B", "noext", "x..y", "1.2.3", "_keys", "[x].txt", "dir.d", ".~lock", "._a", "~", "a~", "#a#", "Thumbs.db", ".DS_Store", "a.tmp", "a.bak", ".gitignore", "README", "-", "a.zip"]
) | st.text(st.sampled_from("ab._-~ #$@!,;=+\u00e9\u4e2dAZ09"), min_size=1, max_size=5).filter(lambda n: n not in (".", "..") and n == n.strip() and stem(n) == stem(n).strip() and stem(n) not in (".", ".."))
contents = st.binary(max_size=5) | st.sampled_from([b"", b"\xff\x00\r\n", b"v" * 3000, "\u00e9".encode()])
files = st.lists(st.tuples(names, contents), max_size=7, unique_by=lambda x: x[0]).map(tuple)

member_names = st.sampled_from(["a", "a.txt", "dir/a", "dir/b.tar", "dir/sub/c", "a b", "\u00e9", "e/", "with\\back", "long/" + "x" * 120, ".hidden", "B", "./f0", "./g0/h", "./g0/i/j", "c0//d", "dir/./e", "A", "DIR/a", "a.TXT", "-", "~", "%41", "a ", " a", "e\u0301", "._a", "__MACOSX/a", "e.zip", "\u4e2d/\u00e9"])
times = st.sampled_from([0, 1, 315532800, 1500000000, 1500000001, 4000000000])
modes = st.sampled_from([(".tar", ""), (".tar.gz", "gz"), (".tgz", "gz"), (".tar", ""), (".tar.gz", ""), (".tar.bz2", "bz2"), ("", "gz"), (".other", "xz"), (".TGZ", "gz")])


@st.composite
def tars(draw):
    members, seen = [], set()
    for name in draw(st.lists(member_names, max_size=6, unique=True)):
        if name.endswith("/"):
            members.append(("dir", name, b"", 1))
            continue
        parent = os.path.dirname(name)
        if parent and parent not in seen and draw(st.booleans()):
            members.append(("dir", parent, b"", draw(times)))
        seen.add(parent)
        members.append(("file", name, draw(contents | st.sampled_from([b"z" * 10, b"z" * 11]) | st.sampled_from([b"", b"q" * (1 << 16), b"0123456789abcdef!" * 70001, b"\x1f\x8b\x08\0", b"PK\3\4"])), draw(times)))
    return (draw(st.sampled_from(["in", "in", "a.b", "in put", "my.tar", "x.tgz.y", "a.tgz", "a.tar.gz", "b.tar.tgz", "x.zip", ".tar", ".a.tar", "./.a", "./a", "./.A.tar", "IN", "In.Tar"])), draw(modes), tuple(members), draw(st.booleans()), draw(st.sampled_from([True, True, False])),
            draw(st.sampled_from([None, "0.00000001", "0.00000001", "1e-8", "0", "1e-6", "5"])), draw(st.sampled_from([False, False, True, False, "empty", "junk"])), draw(st.booleans()), draw(st.booleans()))


pieces = st.lists(st.sampled_from(["a", "b", " ", "\n", "\r", "\r\n", "\t", "\u00e9", "e\u0301", "\u4e2d", "\U0001f600", "\u2028", "\x0b", "\x85", "\ufeff", "\0", "xyz"]), max_size=12).map(tuple)


@st.composite
def texts(draw):
    parts = draw(pieces)
    n = len("".join(parts))
    if draw(st.integers(0, 3)) and n:
        start = draw(st.integers(0, n - 1))
        end = draw(st.integers(start + 1, n))
    else:
        start, end = draw(st.integers(-2, n + 2)), draw(st.integers(-2, n + 2))
    return (parts, start, end, draw(st.booleans()))


def check_many(case, ctx):
    """Tens to thousands of files."""
    n, what, stream, big = case
    content = lambda i: b"%d\n" % i * (3000 if big and i % 50 == 49 else 1)  # noqa
    if what == "directory":
        check_directory(([("f%d.txt" % i, content(i)) for i in range(n)], "strip_one_extension" if stream else None, "zip" if big else "directory", 0), ctx)
    else:
        members = tuple(("file", "d%d/f%d" % (i % 4, i), content(i), 1500000000 + i) for i in range(n))
        check_tar(("in", (".tgz", "gz"), members, stream, big, "1e-6" if big else None, False, False, False), ctx)


def check_subdirectory(case, ctx):
    """Nothing is promised for sub-directories (an error, the documentation says), but no file beside them is lost without one."""
    files, inner, output = case
    tmp = ctx.tmp()
    source = os.path.join(tmp, "source")
    os.makedirs(os.path.join(source, "sub directory"))
    for name, content in files:
        with open(os.path.join(source, name), "wb") as f:
            f.write(content)
    for name, content in inner:
        with open(os.path.join(source, "sub directory", name), "wb") as f:
            f.write(content)
    where = os.path.join(tmp, "store")
    if output == "directory":
        os.mkdir(where)
    target = {"type": output, "path": where}
    before = snapshot(source)
    ctx.mark(bool(files) and bool(inner))
    try:
        quietly(directory_to_key_value_store.main, {"input_directory": source, "output": target})
    except Exception:  # pylint:disable=broad-except
        ctx.label("refused")
    else:
        ctx.label("accepted")
        got = read_any(target)
        for name, content in files:
            if output == "directory" and name in [n for n, _ in inner]:
                continue  # sinks in directories keep one of the values
            same(got.get(name), content, "value of %r, beside a sub-directory" % name)
        require(set(got.values()) <= {c for _, c in files + inner}, "values which no file has", got)
    same(snapshot(source), before, "the directory read")


def check_long_member(case, ctx):
    """A member of many megabytes, and one after it."""
    size, stream, gz = case
    piece = b"0123456789abcdef!"
    content = (piece * (size // len(piece) + 1))[:size]
    ctx.mark()
    check_tar(("in", (".tgz", "gz") if gz else (".tar", ""), (("file", "a", b"before", 1), ("file", "b/long", content, 1), ("file", "c", b"after", 1)), stream, False, None, False, False, True), ctx)


PROP = Prop(
    "C26",
    [
        Sub("directory", st.tuples(files, st.sampled_from([None, "identity", "strip_one_extension", "strip_one_extension", "strip_one_extension", "nosuch"]), st.sampled_from(["zip", "zip", "directory", "no type"]), st.sampled_from([0, 0, 0, 1, 2, 3])), check_directory,
            quick=600, thorough=50, rule="two files or more"),
        Sub("subdirectory", st.tuples(files, files, st.sampled_from(["zip", "directory"])), check_subdirectory, quick=100, thorough=20, rule="files in the directory and below"),
        Sub("tar", tars(), check_tar, quick=500, thorough=60, rule="two files or more are to be copied"),
        Sub("many", st.tuples(st.integers(10, 150) | st.sampled_from([260, 1100]), st.sampled_from(["directory", "tar"]), st.booleans(), st.booleans()), check_many, quick=30, thorough=15, rule="all"),
        Sub("text", texts(), check_text, quick=1000, thorough=60, rule="in bounds with text beyond ASCII or carriage returns, or out of bounds of a text"),
        Sub("long_member", st.tuples(st.sampled_from([2 ** 20 + 1, 2 ** 23 + 3, 2 ** 24 + 5, 2 ** 25 + 7, 10 ** 7 + 1]), st.booleans(), st.booleans()), check_long_member, quick=6, thorough=4, rule="all"),
        Sub("cutoff", st.tuples(st.sampled_from([2 * 10 ** 9 + 1, 2 * 10 ** 9 + 10 ** 6]), st.just(True)), check_cutoff, quick=1, thorough=2, rule="all", shards=1),
        Sub("programs", st.tuples(files, st.sampled_from(["abcdef", "\u00e9\u4e2d\U0001f600xyz"]), st.integers(0, 2), st.integers(3, 6)), check_programs, quick=5, thorough=20, rule="all"),
    ],
    assumptions=[
        "directories have no sub-directories, for which the documentation promises nothing",
        "members of tar files have relative names which stay below the directory, each once, and are files or directories",
    ],
)
