"""C21 Document maps and line sets: what was written is read back; malformed lines are refused."""
import os
from pathlib import Path

from hypothesis import strategies as st

from core import Prop, Sub, fail, raises, require, same, same_typed
from props.c16 import snapshot
from vistautils.io_utils import (
    CharSink,
    CharSource,
    file_lines_to_set,
    is_empty_directory,
    read_doc_id_to_file_map,
    write_doc_id_to_file_map,
)


def check_round_trip(case, ctx):
    pairs, how = case
    tmp = ctx.tmp()
    mapping = {k: Path(v) for k, v in pairs}
    keep = dict(mapping)
    ctx.mark(len(mapping) > 1)
    ctx.label(how)
    want = {k: Path(os.path.join(os.getcwd(), str(v))) for k, v in mapping.items()}
    if how == "string":
        sink = CharSink.to_string()
        write_doc_id_to_file_map(mapping, sink)
        text = sink.last_string_written
        source = CharSource.from_string(text)
    else:
        path = Path(tmp) / "maps" / "map"
        write_doc_id_to_file_map(mapping, CharSink.to_file(path))
        text = path.read_bytes().decode("utf-8")
        source = CharSource.from_file(path)
    same(mapping, keep, "the map which was written")
    lines = text.split("\n")
    same(lines[-1], "", "end of the last line")
    same(lines[:-1], ["%s\t%s" % (k, want[k]) for k in sorted(want)], "lines of the map")
    got = read_doc_id_to_file_map(source)
    same(dict(got), want, "map read back")
    same(len(got), len(want), "size of the map read back")
    for k, v in got.items():
        require(type(k) is str and isinstance(v, Path) and v.is_absolute(), "entry of the map read back", k, v)
        same(got[k], want[k], "looked up in the map read back")
    same(dict(read_doc_id_to_file_map(source)), want, "map read once more")
    # a map which was read can be written
    again = CharSink.to_string()
    write_doc_id_to_file_map(got, again)
    same(again.last_string_written, text, "map written again")


def check_read(case, ctx):
    """Maps written by others: relative paths, spaces around, no newline at the end, bad lines."""
    rows, newline_at_end = case
    lines, want, bad, duplicate = [], {}, False, False
    for i, (kind, a, b, pad) in enumerate(rows):
        if kind == "good":
            lines.append(pad + a + pad + "\t" + pad + b + pad)
            duplicate = duplicate or (a in want and want[a] != Path(b))
            want[a] = Path(b)
        elif kind == "one part":
            lines.append(a + " " + b)
            bad = True
        elif kind == "blank":
            # what follows the last newline is no line
            lines.append(pad)
            bad = bad or bool(pad) or newline_at_end or i < len(rows) - 1
        elif kind == "long":
            lines.append((a + " " + b) * 200)
            bad = True
        elif kind == "three parts":
            lines.append(a + "\t" + b + "\t" + b)
            bad = True
        else:
            lines.append(a + "\t" + b + "\t")
            bad = True
    text = "\n".join(lines) + ("\n" if newline_at_end and lines else "")
    ctx.mark(bad or len(rows) > 1)
    ctx.label("bad" if bad else "good")
    source = CharSource.from_string(text)
    if bad:
        e = raises(IOError, lambda: read_doc_id_to_file_map(source), "a malformed map %r" % text)
        bads = [l for l, r in zip(lines, rows) if r[0] != "good"]
        require(any(b in str(e) for b in bads), "the message does not show the malformed line", str(e), bads[0])
        return
    got = read_doc_id_to_file_map(source)
    if duplicate:
        ctx.label("duplicate")
        same(set(got), set(want), "document ids")
        require(all(any(k == r[1] and v == Path(r[2]) for r in rows) for k, v in got.items()), "the file of a document id which is there twice", got)
        return
    same(dict(got), want, "map")


def check_lines(case, ctx):
    lines, end = case
    path = Path(ctx.tmp()) / "lines"
    text = "\n".join(lines) + ("\n" if end else "")
    path.write_bytes(text.encode("utf-8"))
    ctx.mark(len(set(lines)) < len(lines) or "" in lines, "duplicate or blank lines")
    got = file_lines_to_set(path)
    want = list(dict.fromkeys(l for l in lines if l))
    same(list(got), want, "lines in order")
    same(len(got), len(want), "number of different lines")
    require(all(l in got for l in want) and "nosuchline" not in got and "" not in got, "membership")
    require(got == set(want), "equal to the set of lines", got)
    same(path.read_bytes(), text.encode("utf-8"), "the file afterwards")
    # the file as it is now counts, also when it looks the same from outside
    other = text.translate({ord("a"): "c", ord("b"): "d", ord("x"): "v"})
    when = path.stat()
    path.write_bytes(other.encode("utf-8"))
    os.utime(str(path), ns=(when.st_atime_ns, when.st_mtime_ns))
    same(list(file_lines_to_set(path)), list(dict.fromkeys(l for l in other.split("\n") if l)), "lines after a change")


def check_many(case, ctx):
    """Hundreds or thousands of lines."""
    n, what, stride, extra = case
    ids = ["id%d" % (i * stride % n) for i in range(n)]
    if what == "round trip":
        check_round_trip(([(k, "dir %d/%s" % (len(k), k + "x" * extra)) for k in ids], "file" if extra else "string"), ctx)
    elif what == "read":
        rows = [("good", k, "/d/" + k, "") for k in dict.fromkeys(ids)]
        if extra == 1:
            rows.insert(len(rows) // 2, ("three parts", "bad", "/d", ""))
        check_read((rows, bool(extra)), ctx)
    else:
        check_lines(([k + "y" * extra for k in ids] + ["", "id1", "last"], bool(extra)), ctx)


def check_empty_directory(case, ctx):
    content, what = case
    tmp = os.path.join(ctx.tmp(), "d")
    path = Path(tmp)
    ctx.mark(label=what)
    if what == "missing":
        require(is_empty_directory(path) is False, "a missing directory")
        return
    if what == "file":
        path.write_text("")
        require(is_empty_directory(path) is False, "a file is not an empty directory")
        return
    path.mkdir()
    for name, kind in content:
        full = path / name
        if kind == "file":
            full.write_text("")
        elif kind == "dir":
            full.mkdir()
        else:
            full.symlink_to("nowhere")
    if what == "link":
        link = Path(ctx.tmp()) / "link"
        link.symlink_to("d")
        path = link
    before = snapshot(tmp)
    require(is_empty_directory(path) is (not content), "is_empty_directory", content)
    same(snapshot(tmp), before, "the directory afterwards")


ids = st.sampled_from(["\ufeffa", "~", "#a", "$HOME", "a=b", '"a"', "a,b", "-"]) | st.text(st.sampled_from("abAB01 ._-/\u00e9\u4e2d%{}\x01\x08\x7f"), min_size=1, max_size=6).map(str.strip).filter(bool) | st.text(
    st.characters(blacklist_categories=["Cc", "Cs", "Zl", "Zp"], blacklist_characters="\x85"), min_size=1, max_size=5).map(str.strip).filter(bool)
components = st.text(st.sampled_from("abc01. _-\u00e9%{}"), min_size=1, max_size=5).map(str.strip).filter(lambda s: s not in ("", ".")) | st.sampled_from(["..", "..", "~", "~root", "$HOME", "%41", "a\\b", "*", "\ufeff"])
paths = st.tuples(st.sampled_from(["", "/"]), st.lists(components, min_size=1, max_size=3)).map(lambda x: x[0] + "/".join(x[1]))
pairs = st.lists(st.tuples(ids, paths), max_size=6, unique_by=lambda x: x[0]).map(tuple)
rows = st.tuples(
    st.sampled_from(["good"] * 10 + ["one part", "three parts", "tab at end", "blank", "long"]),
    st.sampled_from(["a", "b", "id 1", "\u00e9", "c", "x.y", "10"]), paths, st.sampled_from(["", "", " "]),
)
line = st.sampled_from(["", "a", "b", "B", "a ", " a", "\t", " ", "\u00e9", "x y", "\u2028q", "z\x0bz", "\u3000", "\ufeffa", "\ufeff", "~", "#a"]) | st.text(
    st.characters(blacklist_categories=["Cs"], blacklist_characters="\r\n"), max_size=4)

PROP = Prop(
    "C21",
    [
        Sub("round_trip", st.tuples(pairs, st.sampled_from(["string", "file"])), check_round_trip, quick=700, thorough=40, rule="two documents or more"),
        Sub("read", st.tuples(st.lists(rows, max_size=5).map(tuple), st.booleans()), check_read, quick=700, thorough=40, rule="a bad line, or two lines or more"),
        Sub("lines", st.tuples(st.lists(line, max_size=8), st.booleans()), check_lines, quick=700, thorough=40, rule="duplicate or blank lines"),
        Sub("many", st.tuples(st.integers(10, 200) | st.sampled_from([1025, 3000]), st.sampled_from(["round trip", "read", "lines"]), st.sampled_from([1, 3, 7]), st.sampled_from([0, 1, 150])), check_many, quick=60, thorough=10, rule="all"),
        Sub("empty_directory", st.tuples(
            st.lists(st.tuples(st.sampled_from(["a", ".hidden", "b"]), st.sampled_from(["file", "dir", "link"])), max_size=2, unique_by=lambda x: x[0]).map(tuple),
            st.sampled_from(["directory", "directory", "link", "file", "missing"])), check_empty_directory, quick=150, thorough=5, rule="all"),
    ],
    assumptions=[
        "document ids and paths have no tabs, line breaks or white space at their ends, which the format cannot express",
        "left open: blank lines in a map, two different paths for one document, carriage returns",
    ],
)
