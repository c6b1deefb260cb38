"""C20 Sinks: in any history of writes each target holds exactly what was last written to it."""
import os
import warnings
import zipfile
from pathlib import Path

from hypothesis import strategies as st

from core import Prop, Sub, fail, raises, require, same, same_typed
from props.c19 import open_files
from vistautils.io_utils import ByteSink, ByteSource, CharSink, CharSource

# the targets of a history; those of one kind share files and directories
TARGETS = [
    ("char file", "out.txt"), ("char file", "new dir/deep/out.txt"), ("char file str", "new dir/other"), ("char file", "out.bin"),
    ("byte file", "out.bin"), ("byte file", "new bytes/deep/\u00e9"), ("byte file", "out.txt"),
    ("char file", "link"), ("byte file", "link to bytes"),
    ("zip", "x.zip", "a"), ("zip", "x.zip", "dir/b"), ("zip", "x.zip", "\u00e9.txt"), ("zip", "x.zip", "old"), ("zip", "y.zip", "a"),
    ("zip", "link.zip", "a"), ("zip", "link.zip", "linked"), ("zip", "x.zip", "d/"), ("zip", "x.zip", "A"), ("zip", "y.zip", " a"), ("zip", "y.zip", "../a"), ("zip", "y.zip", "a//b"), ("zip", "x.zip", "./a"), ("zip", "x.zip", "dir/../a"), ("zip", "x.zip", "/a"), ("zip", "x.zip", ""),
    ("char file str", "new dir/$HOME"), ("char file str", "new dir/~"), ("char file str", "new dir/x "), ("char file str", " dir / y\t"), ("char file", "new dir/%41 {x}"), ("byte file", "new dir/a\\b "), ("char file str", "new dir/OUT.txt"),
    ("string", 0), ("string", 1), ("buffer", 0), ("buffer", 1), ("nowhere", 0), ("nowhere", 1),
]


LINKS = {"link": "linked.txt", "link to bytes": "out.bin", "link.zip": "x.zip"}


# files of others, beside those which are written
HARD = {"out.txt": "hard link to text", "out.bin": "hard link to bytes"}
OTHERS = ["out.txt~", "out.txt.tmp", "out.txt.bak", "out.tmp", "tmp", "out", ".out.txt.tmp", ".out.txt.swp", "#out.txt#", "out.txt.new", "out.txt.part", "out.bin~", "out.bin.tmp",
          "out.bin.part", "x.zip.tmp", "x.zip~", "x.zip.new", "x.zip.bak", "x", "x.tmp", "linked.txt~", "linked.txt.tmp", "link~", "link.tmp"]
# what stands before the zip data in a file which others read as something else
PREFIX = b"#!prefix"


class Own(Exception):
    pass


class OwnInterrupt(BaseException):
    pass


FAILURES = [Own, KeyboardInterrupt, SystemExit, GeneratorExit, OwnInterrupt, OSError, StopIteration]


def key_of(target):
    """Where a target's content is kept."""
    if target[0] == "zip":
        return ("zip", LINKS.get(target[1], target[1]), target[2])
    if target[1] in LINKS:
        return LINKS[target[1]]
    return target[1] if target[0].endswith(("file", "file str")) else target


def make_sink(target, tmp):
    kind = target[0]
    if kind in ("char file", "byte file"):
        return (CharSink if kind == "char file" else ByteSink).to_file(Path(tmp) / target[1])
    if kind == "char file str":
        return CharSink.to_file(os.path.join(tmp, target[1]))
    if kind == "zip":
        return ByteSink.file_in_zip(Path(tmp) / target[1], target[2])
    return {"string": CharSink.to_string, "buffer": ByteSink.to_buffer, "nowhere": CharSink.to_nowhere}[kind]()


def compare(target, sink, want, tmp, what):
    """want: bytes or text which the target must hold; None when nothing was written."""
    kind = target[0]
    if kind == "nowhere":
        return
    if kind in ("string", "buffer"):
        got = sink.last_string_written if kind == "string" else sink.last_bytes_written
        if want is None:
            require(got is None, what + ": written before anything was", got)
        else:
            same_typed(got, want if kind == "buffer" else want.decode("utf-8"), what)
        return
    path = os.path.join(tmp, target[1])
    if kind == "zip":
        if want is None:
            if os.path.exists(path) and os.path.getsize(path) > len(PREFIX):
                with zipfile.ZipFile(path) as z:
                    require(target[2] not in z.namelist(), what + ": is there although it was not written", z.namelist())
            return
        with zipfile.ZipFile(path) as z:
            require(z.testzip() is None, what + ": the zip file is damaged")
            same(z.read(target[2]), want, what)
        same(ByteSource.from_file_in_zip(Path(path), target[2]).read(), want, what + " read by a source")
        return
    if want is None:
        require(not os.path.exists(path), what + ": exists although nothing was written to it")
        return
    with open(path, "rb") as f:
        same(f.read(), want, what)
    same(ByteSource.from_file(Path(path)).read(), want, what + " read by a source")
    if kind != "byte file" and b"\r" not in want:
        try:
            text = want.decode("utf-8")
        except UnicodeDecodeError:
            return
        same(CharSource.from_file(Path(path)).read_all(), text, what + " read as text")


def check(case, ctx):
    old, steps = case
    tmp = ctx.tmp()
    model = {}
    for link, to in LINKS.items():
        os.symlink(to, os.path.join(tmp, link))
    if old:
        with open(os.path.join(tmp, "linked.txt"), "wb") as f:
            f.write(b"linked content " * 20)
        with open(os.path.join(tmp, "out.txt"), "wb") as f:
            f.write(b"long old content " * 40)
        with open(os.path.join(tmp, "out.bin"), "wb") as f:
            f.write(b"\xff" * 999)
        with zipfile.ZipFile(os.path.join(tmp, "x.zip"), "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr("old", b"old member " * 30)
            z.writestr("kept", b"kept")
        with open(os.path.join(tmp, "y.zip"), "wb") as f:
            f.write(PREFIX)
        for other in OTHERS:
            with open(os.path.join(tmp, other), "w") as f:
                f.write(other)
        for name in HARD:
            os.link(os.path.join(tmp, name), os.path.join(tmp, HARD[name]))
        model = {"linked.txt": b"linked content " * 20, "out.txt": b"long old content " * 40, "out.bin": b"\xff" * 999, ("zip", "x.zip", "old"): b"old member " * 30}
    sinks = {}
    # what another name of a file may hold: what was written last, or something from before when the name was taken off
    held = {name: [model.get(name)] for name in HARD}
    before = open_files(tmp)
    rewritten = False
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i, how, pieces, again in steps:
            target = TARGETS[i]
            kind, key = target[0], key_of(target)
            chars = kind in ("char file", "char file str", "string", "nowhere")
            texts = [p if chars else p.encode("utf-8") for p in pieces]
            data = "".join(pieces).encode("utf-8")
            if target not in sinks or (again and kind not in ("string", "buffer")):
                sinks[target] = make_sink(target, tmp)
                if kind.endswith(("file", "file str")):
                    require(os.path.isdir(os.path.dirname(os.path.join(tmp, target[1]))), "the directory of a file to be written")
            sink = sinks[target]
            what = "%s by %s to %s" % (how, kind, target[1:])
            rewritten = rewritten or key in model
            if how == "write":
                require(sink.write(texts[0] if len(texts) == 1 else ("" if chars else b"").join(texts)) is None, what)
                model[key] = data
            elif how in ("open", "close"):
                if how == "open" or kind in ("string", "buffer"):
                    with sink.open() as out:
                        for t in texts:
                            out.write(t)
                else:
                    out = sink.open()
                    for t in texts:
                        out.write(t)
                    out.close()
                model[key] = data
            elif how == "writelines":
                with sink.open() as out:
                    out.writelines(texts)
                model[key] = data
            elif how == "print" and chars:
                with sink.open() as out:
                    print(*pieces, sep="|", file=out)
                    out.flush()
                model[key] = ("|".join(pieces) + "\n").encode("utf-8")
            elif how in ("fail", "print"):
                ctx.label("failure")

                def run():
                    with sink.open() as out:
                        for t in texts:
                            out.write(t)
                        raise failure()

                failure = FAILURES[(i + len(pieces) + len(data)) % len(FAILURES)]
                raises(failure, run, "a failure while writing")
                # what was written before the failure is there, as in a file
                model[key] = data
                if kind != "nowhere":
                    compare(target, sink, data, tmp, "%s after a failure" % (target,))
                    sink.write("" if chars else b"")
                    model[key] = b""
            elif how == "surrogate" and kind == "string":
                # in memory there is no encoding
                with sink.open() as out:
                    for t in texts:
                        out.write(t)
                    out.write("\ud800")
                same_typed(sink.last_string_written, "".join(pieces) + "\ud800", "a lone surrogate, " + what)
                sink.write("good")
                model[key] = b"good"
            elif how == "surrogate" and kind.startswith("char file"):
                # what cannot be written in UTF-8 is refused, in whatever way it is written
                ctx.label("failure")
                raises(UnicodeEncodeError, lambda: sink.write("".join(pieces) + "\ud800"), "writing a lone surrogate, " + what)
                sink.write("good")
                model[key] = b"good"
            elif how == "go back":
                if kind in ("zip", "nowhere"):
                    continue
                # the writer goes back to the beginning, and leaves it at that
                with sink.open() as out:
                    for p in pieces:
                        out.write(p if chars else p.encode("utf-8"))
                    out.seek(0)
                model[key] = "".join(pieces).encode("utf-8")
            elif how in ("seek", "surrogate"):
                if kind in ("zip", "nowhere"):
                    continue
                # the writer goes back, writes over what it wrote, and may cut the rest off
                first, second = ("abcdefgh", "XY\n") if chars else (b"abcdefgh", b"XY\n")
                with sink.open() as out:
                    out.write(first)
                    out.seek(0)
                    out.write(second)
                    if len(pieces) > 1:
                        # to where a reader would begin, after all of it
                        out.flush()
                        out.seek(0)
                        out.seek(len(second))
                    if again:
                        out.flush()
                        out.truncate(out.tell())
                model[key] = b"XY\n" if again else b"XY\ndefgh"
            elif how == "wrong type":
                ctx.label("failure")
                if kind != "nowhere":
                    raises(TypeError, lambda: sink.write(b"bytes" if chars else "text"), "writing a value of the wrong type")
                    sink.write("again" if chars else b"again")
                    model[key] = b"again"
            if kind == "nowhere":
                model.pop(key, None)
            # every target holds what was last written to it, not only this one
            ctx.label(kind)
            for name in HARD if old else ():
                held[name].append(model[name])
                with open(os.path.join(tmp, HARD[name]), "rb") as f:
                    got = f.read()
                require(got in held[name], "another name of a file written to, after " + what, got[:80], name)
            for t in TARGETS:
                if t in sinks or t[0] in ("char file", "byte file", "zip"):
                    compare(t, sinks.get(t), model.get(key_of(t)), tmp, "%s after %s" % (t, what))
    if old:
        with zipfile.ZipFile(os.path.join(tmp, "x.zip")) as z:
            same(z.read("kept"), b"kept", "another member of the zip file")
        with open(os.path.join(tmp, "y.zip"), "rb") as f:
            same(f.read(len(PREFIX)), PREFIX, "what stands before a zip file")
        for other in OTHERS:
            path = os.path.join(tmp, other)
            require(os.path.exists(path), "a file of another was removed", other)
            with open(path) as f:
                same(f.read(), other, "a file of another")
    same(open_files(tmp), before, "files still open after writing")
    # nothing but the targets
    have = {os.path.relpath(os.path.join(d, f), tmp) for d, _, fs in os.walk(tmp) for f in fs}
    want = {k[1] if isinstance(k, tuple) else k for k in model if not (isinstance(k, tuple) and k[0] in ("string", "buffer", "nowhere"))}
    same(have, want | set(LINKS) | ({"x.zip", "y.zip", "out.txt", "out.bin", "linked.txt"} | set(OTHERS) | set(HARD.values()) if old else set()), "files")
    for link, to in LINKS.items():
        same(os.readlink(os.path.join(tmp, link)), to, "a link which was written through")
    ctx.mark(rewritten, "written again")


def check_long(case, ctx):
    """The same again and again, of few targets."""
    old, steps, times = case
    check((old, tuple(steps) * times), ctx)


def check_huge(case, ctx):
    """Millions of characters."""
    n, piece, how, target = case
    tmp = ctx.tmp()
    ctx.mark()
    ctx.label(target[0])
    sink = make_sink(target, tmp)
    text = (piece * (n // len(piece) + 1))[:n]
    data = text if target[0] in ("char file", "string", "nowhere") else text.encode("utf-8")
    if how == "write":
        sink.write(data)
    else:
        with sink.open() as out:
            at = 0
            for size in [1, 70000, n // 2, n]:
                out.write(data[at: at + size])
                at += size
            out.write(data[at:])
    compare(target, sink, text.encode("utf-8"), tmp, "a huge text in %s" % (target,))
    # something short instead
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sink.write("short" if data is text else b"short")
    compare(target, sink, b"short", tmp, "a short text after a huge one in %s" % (target,))


def check_moves(case, ctx):
    """A sink is like a path: it writes to where this leads when it is written to."""
    kinds, steps = case
    tmp = Path(ctx.tmp())
    places = ["one", "two"]
    for place in places:
        (tmp / place).mkdir()
    current = tmp / "current"
    current.symlink_to(places[0])
    # files which are themselves links
    for name in ("lchar", "lbyte"):
        (tmp / name).symlink_to(Path(places[0]) / name)
    model = {}
    if len(steps) % 2:
        # what the links lead to is there before
        for place in places:
            for name in ("lchar", "lbyte", "char", "str", "byte"):
                (tmp / place / name).write_bytes(b"before")
                model[place, name] = b"before"
    make = {
        "lchar": lambda: CharSink.to_file(tmp / "lchar"),
        "lbyte": lambda: ByteSink.to_file(tmp / "lbyte"),
        "char": lambda: CharSink.to_file(current / "char"),
        "str": lambda: CharSink.to_file(str(current / "str")),
        "byte": lambda: ByteSink.to_file(current / "byte"),
        "zip": lambda: ByteSink.file_in_zip(current / "zip", "member"),
    }
    sinks = {kind: make[kind]() for kind in kinds}
    at, moved, written = 0, False, set()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i, (kind, data) in enumerate(steps):
            if kind == "move":
                at = 1 - at
                current.unlink()
                current.symlink_to(places[at])
                for name in ("lchar", "lbyte"):
                    require((tmp / name).is_symlink(), "a link was replaced", name)
                    (tmp / name).unlink()
                    (tmp / name).symlink_to(Path(places[at]) / name)
                moved = True
                continue
            kind = kinds[kind % len(kinds)]
            content = data + str(i)
            sinks[kind].write(content if kind in ("char", "str", "lchar") else content.encode())
            model[places[at], kind] = content.encode()
            written.add(at)
            for place in places:
                for k in make:
                    path = tmp / place / k
                    require(path.exists() == ((place, k) in model), "a file which is there", place, k, model)
                    if path.exists():
                        got = path.read_bytes() if k != "zip" else ByteSource.from_file_in_zip(path, "member").read()
                        same(got, model[place, k], "what was written, %s" % k)
    ctx.mark(moved and len(written) > 1)


text = st.lists(st.sampled_from(list("ab\n\t") + ["\r", "\r\n", "\u00e9", "\u4e2d\U0001f600", "\u2028", "\x00", "\ufeff", "x" * 9000, "y" * 70001 + "\n\n"]), max_size=5).map("".join)
step = st.tuples(
    st.integers(0, len(TARGETS) - 1),
    st.sampled_from(["write", "write", "write", "open", "open", "close", "writelines", "print", "fail", "fail", "wrong type", "seek", "go back", "surrogate"]),
    st.lists(text, min_size=1, max_size=3).map(tuple),
    st.booleans(),
)
few = st.lists(st.integers(0, len(TARGETS) - 1), min_size=1, max_size=3).flatmap(
    lambda ts: st.lists(step.flatmap(lambda s: st.sampled_from(ts).map(lambda t: (t,) + s[1:])), min_size=2, max_size=6)
)

PROP = Prop(
    "C20",
    [
        Sub("history", st.tuples(st.booleans(), (st.lists(step, min_size=1, max_size=5) | few.map(list)).map(tuple)), check,
            quick=900, thorough=40, rule="a target is written more than once"),
        Sub("long", st.tuples(st.booleans(), few, st.integers(4, 12)), check_long, quick=60, thorough=20, rule="a target is written more than once"),
        Sub("huge", st.tuples(st.sampled_from([2 ** 20 + 1, 10 ** 6 + 1, 3 * 10 ** 6 + 7, 2 ** 22 + 1, 2 ** 23 + 3]), st.sampled_from(["a", "ab\n", "\u00e9x", "a\u4e2d\n", "\0"]), st.sampled_from(["write", "open"]),
                              st.sampled_from([("char file", "out.txt"), ("byte file", "out.bin"), ("zip", "x.zip", "a"), ("string", 0), ("buffer", 0), ("string", 1), ("nowhere", 0)])),
            check_huge, quick=40, thorough=8, rule="all"),
        Sub("moves", st.tuples(
                st.lists(st.sampled_from(["char", "str", "byte", "zip", "lchar", "lbyte"]), min_size=1, max_size=3, unique=True).map(tuple),
                st.lists(st.tuples(st.sampled_from([0, 1, 2, "move"]), st.sampled_from(["", "a", "longer"])), min_size=2, max_size=6).map(tuple)),
            check_moves, quick=100, thorough=30, rule="written in more than one place"),
    ],
    assumptions=[
        "memory sinks are used with a context manager, as documented",
    ],
)
