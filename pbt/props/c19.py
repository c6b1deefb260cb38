"""C19 Sources: wherever the text or the bytes are kept, a source gives exactly them, each time."""
import gzip
import io
import os
import posixpath
import tarfile
import unicodedata
import urllib.parse
import warnings
import zipfile
from pathlib import Path

from hypothesis import strategies as st

from core import Prop, Sub, fail, raises, require, same, same_typed
from vistautils.io_utils import ByteSource, CharSource

ENCODINGS = ["utf-8", "utf-16", "utf-32-le", "latin-1", "cp1252", "ascii", "utf-8-sig", "utf-16-be", "cp037"]
BACKENDS = ["string", "nowhere", "file", "file str", "gz", "gz members", "tgz", "zip", "open zip", "bytes file", "bytes zip", "bytes own", "bytes short", "own chars", "moved zip", "memory zip"]


class OwnBytes(ByteSource):
    """A source of a user's own."""

    def __init__(self, data):
        self.data = data
        self.streams = []

    def open(self):
        self.streams.append(io.BytesIO(self.data))
        return self.streams[-1]


class ShortBytes(OwnBytes):
    """Its stream gives less than it is asked for, as those of networks do."""

    class Stream(io.BytesIO):
        def read1(self, size=-1):
            return super().read1(min(size, 3) if size > 0 else size)

        def readinto1(self, buffer):
            return super().readinto1(memoryview(buffer)[:3])

    def open(self):
        self.streams.append(self.Stream(self.data))
        return self.streams[-1]


class OwnChars(CharSource):
    """A source of text of a user's own; its stream gives less than it is asked for."""

    class Stream(io.StringIO):
        def read(self, size=-1):
            return super().read(min(size, 3) if size is not None and size > 0 else size)

    def __init__(self, text):
        self.text = text
        self.streams = []

    def open(self):
        self.streams.append(self.Stream(self.text))
        return self.streams[-1]


def encode(text, encoding):
    try:
        data = text.encode(encoding)
    except UnicodeError:
        return "utf-8", text.encode("utf-8")
    return encoding, data


def open_files(below):
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if target.startswith(below):
            out.append(target)
    return sorted(out)


def write_zip(path, entries, compression):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with zipfile.ZipFile(path, "w", compression) as z:
            for name, data in entries:
                z.writestr(name, data)


def write_tgz(path, entries):
    with tarfile.open(path, "w:gz") as t:
        for name, data in entries:
            info = tarfile.TarInfo(name)
            info.size = len(data)
            t.addfile(info, io.BytesIO(data))
        d = tarfile.TarInfo("a directory")
        d.type = tarfile.DIRTYPE
        t.addfile(d)


def char_source(backend, text, encoding, name, compression, others, tmp, ctx):
    """(source, encoding used) of a text kept in some way among other texts."""
    if backend == "string":
        return CharSource.from_string(text)
    if backend == "nowhere":
        return CharSource.from_nowhere()
    if backend == "own chars":
        return OwnChars(text)
    open_zip = backend in ("open zip", "moved zip", "memory zip")
    if open_zip:
        encoding = "utf-8"
    if backend in ("file", "file str", "zip", "open zip"):
        encoding = "utf-8"
    used, data = encode(text, encoding)
    path = Path(tmp) / ("the file." + backend.replace(" ", "-"))
    entries = [(n, o.encode("utf-8")) for n, o in others if n != name]
    entries.insert(min(1, len(entries)), (name, data))
    if compression == zipfile.ZIP_DEFLATED and len(others) > 1 and (open_zip or backend in ("tgz", "zip", "bytes zip")):
        # an archive to which the member was added again: the last one counts
        entries.insert(0, (name, b"an older version"))
    kw = {} if used == "utf-8" else {"encoding": used}
    if backend in ("file", "file str"):
        path.write_bytes(data)
        return CharSource.from_file(path if backend == "file" else str(path))
    if backend == "gz":
        path.write_bytes(gzip.compress(data))
        return CharSource.from_gzipped_file(path, **kw)
    if backend == "gz members":
        cut = len(data) // 2
        path.write_bytes(gzip.compress(data[:cut]) + gzip.compress(data[cut:]))
        return CharSource.from_gzipped_file(path, **kw)
    if backend == "tgz":
        write_tgz(path, entries)
        return CharSource.from_file_in_tgz(path, name, **kw)
    if backend == "memory zip":
        kept = io.BytesIO()
        write_zip(kept, entries, compression)
        return CharSource.from_file_in_zip(zipfile.ZipFile(kept), name)
    if open_zip or backend in ("zip", "bytes zip"):
        write_zip(path, entries, compression)
        if backend == "zip":
            return CharSource.from_file_in_zip(path, name)
        if backend == "bytes zip":
            return CharSource.from_byte_source(ByteSource.from_file_in_zip(path, name), **kw)
        z = zipfile.ZipFile(path)
        ctx.defer(z.close)
        source = CharSource.from_file_in_zip(z, name)
        if backend == "moved zip":
            # a source is good as long as its zip file is open
            os.rename(path, str(path) + " moved")
        return source
    if backend == "bytes file":
        path.write_bytes(data)
        return CharSource.from_byte_source(ByteSource.from_file(path), **kw)
    return CharSource.from_byte_source((ShortBytes if backend == "bytes short" else OwnBytes)(data), **kw)


def lines_of(text):
    """Broken on newlines only; what follows the last one is a line unless it is empty."""
    parts = text.split("\n")
    if parts[-1] == "":
        parts.pop()
    return parts


def translated(text):
    return text.replace("\r\n", "\n").replace("\r", "\n")


def check_chars(case, ctx):
    backend, pieces, factor, encoding, name, compression, others, script = case
    text = "".join(pieces) * factor
    if backend == "nowhere":
        text = ""
    tmp = ctx.tmp()
    source = char_source(backend, text, encoding, name, compression, others, tmp, ctx)
    before = open_files(tmp)
    ctx.label(backend, "empty" if not text else "long" if len(text) > 5000 else "short")
    wanted = text
    if "\r" in text and backend not in ("string", "nowhere", "tgz", "own chars"):
        # known finding: carriage returns are translated by sources which read from files
        with source.open() as f:
            if f.read() == translated(text):
                ctx.label("translated")
                wanted = translated(text)
    ctx.mark(len(script) > 1 and bool(text))
    handles = []
    for step in script:
        what = "%s of %s" % (step, backend)
        if step == "read_all":
            same_typed(source.read_all(), wanted, what)
        elif step == "readlines":
            got = source.readlines()
            same(list(got), lines_of(wanted), what)
        elif step == "is_empty":
            require(source.is_empty() is (text == ""), what, source.is_empty(), text[:50])
        elif step == "open":
            with source.open() as f:
                same_typed(f.read(), wanted, what)
                same(f.read(), "", what + " at the end")
        elif step == "chunks":
            with source.open() as f:
                got = []
                while True:
                    s = f.read(7 if len(text) < 1000 else 4999)
                    if not s:
                        break
                    got.append(s)
            same("".join(got), wanted, what)
        elif step == "iterate":
            with source.open() as f:
                same(list(f), wanted.splitlines(True) if not set(wanted) - set("ab\n") else [l + "\n" for l in wanted.split("\n")[:-1]] + ([wanted.split("\n")[-1]] if wanted.split("\n")[-1] else []), what)
        elif step == "readline":
            with source.open() as f:
                head = f.readline()
                same(head + f.read(), wanted, what)
                require("\n" not in head[:-1], what, head)
        elif step == "without with":
            f = source.open()
            same(f.read(), wanted, what)
            f.close()
        elif step == "keep open":
            f = source.open()
            handles.append((f, f.read(1)))
        elif step == "two at once":
            with source.open() as f:
                with source.open() as g:
                    head = f.read(2)
                    same(g.read(), wanted, what + ": inner")
                same(head + f.read(), wanted, what + ": outer")
    for f, head in handles:
        same(head + f.read(), wanted, "the rest of a source opened before, " + backend)
        f.close()
    if backend in ("open zip", "moved zip", "memory zip"):
        require(source.read_all() == wanted, "the open zip file was closed by its source")
    inner = getattr(source, "_wrapped_source", source)
    for stream in getattr(inner, "streams", []):
        require(stream.closed, "a stream of a user's own source was not closed", backend, script)
    same(open_files(tmp), before, "files still open after their source was closed, " + backend)


def check_bytes(case, ctx):
    backend, data, factor, name, compression, sizes, others = case
    data = data * factor
    tmp = ctx.tmp()
    path = Path(tmp) / "the file"
    ctx.label(backend)
    ctx.mark(bool(data))
    if backend == "file":
        path.write_bytes(data)
        source = ByteSource.from_file(path)
    else:
        entries = [(n, o) for n, o in others if n != name]
        entries.insert(min(1, len(entries)), (name, data))
        if len(others) > 1:
            entries.insert(0, (name, b"an older version"))
        write_zip(path, entries, compression)
        if backend == "zip":
            source = ByteSource.from_file_in_zip(path, name)
        else:
            z = zipfile.ZipFile(path if backend != "memory zip" else io.BytesIO(path.read_bytes()))
            ctx.defer(z.close)
            source = ByteSource.from_file_in_zip(z, name)
            if backend == "moved zip":
                path.unlink()
    before = open_files(tmp)
    same_typed(source.read(), data, "bytes of a source, " + backend)
    same_typed(source.read(None), data, "bytes of a source, all of them, " + backend)
    # (more than there can be)
    for size in list(sizes) + ([2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 33 + 1] if backend != "file" else [2 ** 31 + 5] if len(others) > 1 else []):
        same_typed(source.read(size), data if size < 0 else data[:size], "the first %d bytes, %s" % (size, backend))
    with source.open() as f:
        got = b""
        for size in sizes:
            if size >= 0:
                got += f.read(size)
        with source.open() as g:
            same(g.read(), data, "bytes by another handle, " + backend)
        got += f.read()
    same(got, data, "bytes read in pieces, " + backend)
    same_typed(source.read(), data, "bytes of a source once more, " + backend)
    if hasattr(source, "is_empty"):
        require(source.is_empty() is (not data), "is_empty of bytes", data[:20])
    same(open_files(tmp), before, "files still open after their source was closed, " + backend)


def check_changes(case, ctx):
    """What a source gives is what is kept now."""
    backend, texts, name, others, reads = case
    tmp = ctx.tmp()
    path = Path(tmp) / "the file"
    ctx.label(backend)
    ctx.mark(len(set(texts)) > 1)
    own = OwnBytes(b"")

    def store(text):
        data = text.encode("utf-8")
        entries = [(n, o.encode()) for n, o in others if n != name] + [(name, data)]
        if backend in ("file", "file str", "bytes file", "raw file"):
            path.write_bytes(data)
        elif backend == "gz":
            path.write_bytes(gzip.compress(data))
        elif backend == "tgz":
            write_tgz(path, entries)
        elif backend == "own":
            own.data = data
        else:
            write_zip(path, entries, zipfile.ZIP_DEFLATED)

    store(texts[0])
    source = {
        "file": lambda: CharSource.from_file(path),
        "file str": lambda: CharSource.from_file(str(path)),
        "gz": lambda: CharSource.from_gzipped_file(path),
        "tgz": lambda: CharSource.from_file_in_tgz(path, name),
        "zip": lambda: CharSource.from_file_in_zip(path, name),
        "bytes file": lambda: CharSource.from_byte_source(ByteSource.from_file(path)),
        "bytes zip": lambda: CharSource.from_byte_source(ByteSource.from_file_in_zip(path, name)),
        "raw file": lambda: ByteSource.from_file(path),
        "raw zip": lambda: ByteSource.from_file_in_zip(path, name),
        "own": lambda: CharSource.from_byte_source(own),
    }[backend]()
    raw = backend.startswith("raw")
    for i, text in enumerate(texts):
        if i:
            store(text)
        for read in reads:
            what = "%s of %s, version %d" % (read, backend, i + 1)
            if raw:
                same(source.read(), text.encode("utf-8"), what)
            elif read == "read_all":
                same(source.read_all(), text, what)
            elif read == "is_empty":
                same(source.is_empty(), text == "", what)
            elif read == "readlines":
                same(list(source.readlines()), lines_of(text), what)
            else:
                with source.open() as f:
                    same(f.read(), text, what)


def check_raw(case, ctx):
    """Bytes made by others: the text which they are in the encoding, or an error if they are none."""
    backend, data, encoding, name, others, method = case
    tmp = ctx.tmp()
    path = Path(tmp) / "the file"
    if backend in ("file", "zip"):
        encoding = "utf-8"
    if encoding == "utf-16" and data[:2] not in (b"\xff\xfe", b"\xfe\xff"):
        # Python's own decoders do not agree about UTF-16 without a mark
        encoding = "utf-16-be"
    entries = [(n, o.encode()) for n, o in others if n != name] + [(name, data)]
    kw = {"encoding": encoding}
    if backend == "file":
        path.write_bytes(data)
        source = CharSource.from_file(path)
    elif backend == "gz":
        path.write_bytes(gzip.compress(data))
        source = CharSource.from_gzipped_file(path, encoding)
    elif backend == "tgz":
        write_tgz(path, entries)
        source = CharSource.from_file_in_tgz(path, name, **kw)
    elif backend in ("zip", "bytes zip"):
        write_zip(path, entries, zipfile.ZIP_DEFLATED)
        if backend == "zip":
            source = CharSource.from_file_in_zip(path, name)
        else:
            source = CharSource.from_byte_source(ByteSource.from_file_in_zip(path, name), **kw)
    else:
        source = CharSource.from_byte_source(OwnBytes(data), **kw)
    try:
        text = data.decode(encoding)
    except UnicodeDecodeError:
        ctx.mark(label="no text")

        def read():
            if method == "open":
                with source.open() as f:
                    return f.read()
            return getattr(source, method)()

        raises(UnicodeError, read, "%s of bytes which are no text in %s, %s" % (method, encoding, backend))
    else:
        ctx.mark(bool(text), label="text")
        got = source.read_all()
        require(got == text or "\r" in text and got == translated(text), "text of bytes in %s, %s" % (encoding, backend), got, text)
        require(source.is_empty() is (text == ""), "is_empty of bytes in %s, %s" % (encoding, backend), data)
    same(open_files(tmp), [], "files still open after their source was closed, " + backend)


def near(name):
    """Names which are nearly the same."""
    return {
        name.swapcase(), " " + name, name + " ", name.strip(), name.replace("\\", "/"), name.replace("/", "\\"), "./" + name, posixpath.normpath(name),
        posixpath.basename(name), "other/" + name, name.lstrip("./"), unicodedata.normalize("NFC", name), unicodedata.normalize("NFD", name), "./" + name.lstrip("./"),
        urllib.parse.unquote(name), urllib.parse.quote(name), name + ".txt", name.rsplit(".", 1)[0] or "x", name + "*",
        "/" + name, name.lstrip("/") or "x",
    }


def check_missing(case, ctx):
    """A source of something which is not there gives an error, never an empty text."""
    backend, name, method, others = case
    tmp = ctx.tmp()
    path = Path(tmp) / "the file"
    ctx.label(backend)
    ctx.mark()
    others = [(n, o.encode()) for n, o in others if n != name]
    entries = others + [(name + "/deeper", b"x"), (name + "x", b"y")] + [(n, b"z") for n in sorted(near(name)) if n != name and n not in dict(others)]
    make = None
    if backend == "file":
        make = lambda: CharSource.from_file(path)  # noqa
    elif backend == "gz":
        make = lambda: CharSource.from_gzipped_file(path)  # noqa
    elif backend == "not gz":
        path.write_bytes(b"plain text")
        make = lambda: CharSource.from_gzipped_file(path)  # noqa
    elif backend == "tgz":
        write_tgz(path, entries)
        make = lambda: CharSource.from_file_in_tgz(path, name)  # noqa
    elif backend == "tgz directory":
        write_tgz(path, entries)
        make = lambda: CharSource.from_file_in_tgz(path, "a directory")  # noqa
    elif backend == "zip":
        write_zip(path, entries, 0)
        make = lambda: CharSource.from_file_in_zip(path, name)  # noqa
    elif backend == "zip file":
        make = lambda: CharSource.from_file_in_zip(path, name)  # noqa
    elif backend == "undecodable":
        path.write_bytes(b"ab\xff\xfe")
        make = lambda: CharSource.from_file(path)  # noqa
    elif backend == "undecodable bytes":
        make = lambda: CharSource.from_byte_source(OwnBytes(b"\x80abc"))  # noqa
    elif backend == "undecodable gz":
        path.write_bytes(gzip.compress(b"\x80abc"))
        make = lambda: CharSource.from_gzipped_file(path)  # noqa
    elif backend == "damaged zip":
        write_zip(path, others + [(name, b"what there is " * 99)], 0)
        path.write_bytes(path.read_bytes().replace(b"what there is ", b"what there iz ", 1))
        make = lambda: CharSource.from_file_in_zip(path, name)  # noqa
    elif backend == "damaged gz":
        bad = bytearray(gzip.compress(b"what there is " * 99))
        bad[-6] ^= 1
        path.write_bytes(bytes(bad))
        make = lambda: CharSource.from_gzipped_file(path)  # noqa
    elif backend == "cut gz":
        path.write_bytes(gzip.compress(b"what there is " * 99)[:-9])
        make = lambda: CharSource.from_gzipped_file(path)  # noqa
    if backend.startswith(("undecodable", "damaged", "cut")) and method == "is_empty":
        method = "read_all"
    raises(Exception, lambda: getattr(make(), method)(), "%s of a source which is not there (%s)" % (method, backend))


char = st.sampled_from(list("ab \n\n.\t") + ["\u00e9", "\u4e2d", "\U0001f600", "\u2028", "\x0b", "\x85", "\ufeff", "\x00", "\x1c", "\u20ac"])
small = st.lists(char, max_size=12)
with_cr = st.lists(char | st.sampled_from(["\r", "\r\n", "\n"]), max_size=10)
any_text = st.lists(st.characters(blacklist_categories=["Cs"], blacklist_characters="\r"), max_size=12)
pieces = small | small | with_cr | any_text | st.sampled_from(["\ufeff", " ", "\0", "\n", "\ufeff\ufeff", "0"]).map(lambda c: [c])
factor = st.sampled_from([1, 1, 1, 1, 1, 700, 20000])
member = st.sampled_from(["a", "b.txt", "dir/a", "dir/sub/c", "\u00e9", "with space", "a.b", "A", "B.TXT", "Dir/a", "./a", "dir//a", "\u00c9", "a\\b", "a ", "-", "e\u0301", "a%20b", "__keys"])
other_texts = st.lists(st.tuples(member, st.sampled_from(["", "other", "x\n" * 50])), max_size=3, unique_by=lambda x: x[0])
STEPS = ["read_all", "readlines", "is_empty", "open", "chunks", "iterate", "readline", "without with", "keep open", "two at once"]
compression = st.sampled_from([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])


def carriage_returns_probe():
    import shutil
    import tempfile

    d = tempfile.mkdtemp()
    try:
        p = Path(d) / "f"
        p.write_bytes(b"a\rb\r\nc\n")
        return CharSource.from_file(p).readlines() != ["a\rb\r", "c"]
    finally:
        shutil.rmtree(d)


PROP = Prop(
    "C19",
    [
        Sub("chars", st.tuples(st.sampled_from(BACKENDS), pieces, factor, st.sampled_from(["utf-8"] * 5 + ENCODINGS), member, compression,
                               other_texts, st.lists(st.sampled_from(STEPS), min_size=1, max_size=5)),
            check_chars, quick=2500, thorough=30, rule="more than one way to read a text which is not empty"),
        Sub("huge", st.tuples(st.sampled_from(BACKENDS), st.lists(st.sampled_from(["a", "b\n", "\u00e9", "\0", "xyz", "a\r\n", "\r", "\ufeff", "\u2028"]), min_size=1, max_size=4), st.sampled_from([270000, 530000, 1100000]), st.just("utf-8"), st.just("m"), compression,
                              st.just([]), st.lists(st.sampled_from([s for s in STEPS if s != "keep open"]), min_size=1, max_size=3)),
            check_chars, quick=50, thorough=10, rule="more than one way to read a text which is not empty"),
        Sub("huge_bytes", st.tuples(st.sampled_from(["file", "zip", "open zip", "moved zip", "memory zip"]), st.binary(min_size=1, max_size=8), st.sampled_from([270000, 1100000]), st.just("m"), compression,
                              st.lists(st.sampled_from([-1, 0, 1, 70000, 2 ** 20 + 1]), max_size=3), st.just([])),
            check_bytes, quick=20, thorough=10, rule="bytes which are not empty"),
        Sub("bytes", st.tuples(st.sampled_from(["file", "zip", "open zip", "moved zip", "memory zip"]), st.binary(max_size=40), factor, member, compression,
                               st.lists(st.sampled_from([-1, 0, 1, 2, 5, 100, 70000]), max_size=4),
                               st.lists(st.tuples(member, st.binary(max_size=9)), max_size=2, unique_by=lambda x: x[0])),
            check_bytes, quick=700, thorough=30, rule="bytes which are not empty"),
        Sub("changes", st.tuples(
                st.sampled_from(["file", "file str", "gz", "tgz", "zip", "bytes file", "bytes zip", "raw file", "raw zip", "own"]),
                st.lists(small.map("".join), min_size=2, max_size=4), member, other_texts,
                st.lists(st.sampled_from(["read_all", "is_empty", "readlines", "open"]), min_size=1, max_size=3)),
            check_changes, quick=400, thorough=30, rule="the text changes"),
        Sub("raw", st.tuples(
                st.sampled_from(["file", "gz", "tgz", "zip", "bytes zip", "own"]),
                st.lists(st.sampled_from([b"a", b"\n", b"\xc3\xa9", b"\xff\xfe", b"\xfe\xff", b"\xef\xbb\xbf", b"\x80", b"\xc3", b"\x00", b"\xed\xa0\x80", b"\xd8\x00", b"b\x00"]), max_size=5).map(b"".join) | st.binary(max_size=6),
                st.sampled_from(ENCODINGS), member, other_texts, st.sampled_from(["read_all", "readlines", "open"])),
            check_raw, quick=700, thorough=30, rule="no text in the encoding, or a text which is not empty"),
        Sub("missing", st.tuples(st.sampled_from(["file", "gz", "not gz", "tgz", "tgz directory", "zip", "zip file", "undecodable", "undecodable bytes", "undecodable gz", "damaged zip", "damaged gz", "cut gz"]),
                                 member | st.just("/a"), st.sampled_from(["read_all", "readlines", "is_empty"]), other_texts),
            check_missing, quick=300, thorough=10, rule="all"),
    ],
    assumptions=[
        "texts with carriage returns: either exact or with universal newlines from sources which read files (known finding)",
    ],
    findings=[("carriage-returns", carriage_returns_probe, "")],
)
