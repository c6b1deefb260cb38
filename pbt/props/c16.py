"""C16 File parameters: paths which exist, or are made to; nothing else on the disk changes."""
import contextlib
import os
import pickle
import shutil
from pathlib import Path
from unittest import mock

from hypothesis import strategies as st

from core import Prop, Sub, fail, raises, require, same
from props.paramgen import exactly, make
from vistautils.parameters import ParameterError, Parameters

NAMES = ["a", "b", "c"]
ODD = ["a ", " a", "a b", ".hidden", "a.b.c", "a\tb", "-", "#a", "x" * 100, "A", "$HOME", "a%b", "a*", "a\\b", "~", "~", "~a"]


def build(root, entries):
    """Make files, directories and links; an entry which does not fit is left out."""
    os.makedirs(root, exist_ok=True)
    for path, kind in entries:
        full = os.path.join(root, path)
        try:
            if kind == "dir":
                os.makedirs(full, exist_ok=True)
            elif kind == "file":
                os.makedirs(os.path.dirname(full), exist_ok=True)
                if not os.path.lexists(full):
                    with open(full, "x") as f:
                        f.write("content of " + path)
            else:
                os.makedirs(os.path.dirname(full), exist_ok=True)
                os.symlink(os.path.join(root, kind[1]), full)
        except OSError:
            pass


def snapshot(top):
    out = {}
    for d, subdirs, files in os.walk(top):
        for name in subdirs + files:
            full = os.path.join(d, name)
            if os.path.islink(full):
                out[full] = "-> " + os.readlink(full)
            elif os.path.isdir(full):
                out[full] = "dir"
            else:
                with open(full, "rb") as f:
                    out[full] = f.read()
    return out


def parents_of(path, snap, top):
    """The directories to be created for a path, or None when a file is in the way."""
    out = []
    while path != top and path not in snap:
        out.append(path)
        path = os.path.dirname(path)
    if path != top and snap[path] != "dir":
        return None
    return out


def model(method, real, snap, top, delete):
    """(result, snapshot afterwards) where the result is "path", "param error" or "error"."""
    here = snap.get(real)
    ancestors = [p for p in snap if real == p or real.startswith(p + os.sep)]
    if any(isinstance(snap[p], str) and snap[p] != "dir" for p in ancestors):
        # a loop of links
        return "error", snap
    below = [p for p in snap if p.startswith(real + os.sep)]
    if method == "existing_file":
        return ("path" if isinstance(here, bytes) else "param error"), snap
    if method == "existing_directory":
        return ("path" if here == "dir" else "param error"), snap
    if method == "creatable_file":
        made = parents_of(os.path.dirname(real), snap, top)
        if made is None:
            return "error", snap
        return "path", dict(snap, **{p: "dir" for p in made})
    if method == "creatable_empty_directory":
        if isinstance(here, bytes):
            return "param error", snap
        if here == "dir" and below:
            if not delete:
                return "param error", snap
            return "path", {p: k for p, k in snap.items() if p not in below}
    # creatable_directory
    if isinstance(here, bytes):
        return "error", snap
    made = parents_of(real, snap, top)
    if made is None:
        return "error", snap
    return "path", dict(snap, **{p: "dir" for p in made})


def spelled(root, path, style):
    if style == "absolute":
        return os.path.join(root, path)
    if style == "relative":
        return path
    if style == "dots":
        return os.path.join(root, "nowhere", "..", path)
    if style == "slash":
        return os.path.join(root, path) + os.sep
    return os.path.join(root, ".", path, ".")


def check(case, ctx):
    entries, steps, style, optional = case
    top = os.path.realpath(ctx.tmp())
    root = os.path.join(top, "p", "q", "root")
    build(root, entries)
    keep = os.getcwd()
    os.chdir(root)
    # a home which is no part of the paths, within the scratch directory
    home = os.environ.get("HOME")
    os.environ["HOME"] = os.path.join(top, "home")
    build(os.environ["HOME"], [("a", "file"), ("b/c", "file")])
    try:
        for path, method, delete in steps:
            target = spelled(root, path, style)
            if os.path.realpath(target) == top or not os.path.realpath(target).startswith(top):
                return
            p = make({"n": {"f": target}})
            before = snapshot(top)
            real = os.path.realpath(target)
            result, after = model(method, real, before, top, delete)
            kwargs = {"delete": delete} if method == "creatable_empty_directory" and delete is not None else {}
            name = ("optional_" if optional else "") + method
            what = "%s of %r (%s)" % (name, path, kwargs)
            fn = lambda: getattr(p, name)("n.f", **kwargs)
            ctx.label(method, result)
            ctx.mark(bool(before) and (after != before or result != "path"))
            if after != before:
                ctx.label("changes " + method)
            if result == "path":
                got = fn()
                require(isinstance(got, Path), what + " returns a path", got)
                same(str(got), real, what)
            elif result == "param error":
                raises(ParameterError, fn, what)
            else:
                raises(Exception, fn, what)
                if snapshot(top) != before:
                    # what a failing creation left is not judged, but nothing may be lost
                    now = snapshot(top)
                    for q, k in before.items():
                        same(now.get(q), k, "%s failed and changed %r" % (what, q))
                continue
            now = snapshot(top)
            for q in sorted(set(now) | set(after)):
                same(now.get(q), after.get(q), "%s: %r afterwards" % (what, q))
    finally:
        os.chdir(keep)
        if home is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = home


METHODS = ["existing_file", "existing_directory", "creatable_file", "creatable_directory", "creatable_empty_directory"]


def check_absent(case, ctx):
    method, optional, value, name = case
    top = os.path.realpath(ctx.tmp())
    p = make({"n": {"f": value} if value is not None else {}, "leaf": 1})
    full = ("optional_" if optional else "") + method
    fn = lambda: getattr(p, full)(name)
    ctx.mark(label="absent" if value is None or name != "n.f" else "not a string")
    if name == "n.f" and value is not None:
        raises(ParameterError, fn, "%s of %r" % (full, value))
    elif optional:
        same(fn(), None, full + " of an absent parameter")
    else:
        raises(ParameterError, fn, full + " of an absent parameter")
    same(snapshot(top), {}, "files")


def check_empty_text(case, ctx):
    """The empty text is the current directory, also for the optional forms."""
    method, optional, name, kind = case
    top = os.path.realpath(ctx.tmp())
    os.makedirs(os.path.join(top, "d"))
    if kind == "content":
        build(os.path.join(top, "d"), [("a", "file")])
    keep = os.getcwd()
    os.chdir(os.path.join(top, "d"))
    before = snapshot(top)
    ctx.mark(label=method)
    try:
        p = make({"n": {"f": ""}, "f": ""})
        fn = lambda: getattr(p, ("optional_" if optional else "") + method)(name)
        if method == "existing_file" or (method == "creatable_empty_directory" and kind == "content"):
            raises(ParameterError, fn, "%s of the empty text" % method)
        else:
            same(str(fn()), os.path.join(top, "d"), "%s of the empty text" % method)
        same(snapshot(top), before, "files")
    finally:
        os.chdir(keep)


def check_roots(case, ctx):
    """Directories whose paths have no last name (nothing is deleted here, whatever the code does)."""
    spelling, method, optional, name = case
    top = os.path.realpath(ctx.tmp())
    keep = os.getcwd()
    os.chdir(top)
    ctx.mark(label=method)

    def never(*args, **kwargs):
        fail("something was to be deleted or moved", args)

    try:
        p = make({"n": {"f": spelling}, "f": spelling})
        fn = getattr(p, ("optional_" if optional else "") + method)
        with contextlib.ExitStack() as stack:
            for f in ("remove", "unlink", "rmdir", "rename", "replace", "renames", "removedirs", "mkdir", "makedirs"):
                stack.enter_context(mock.patch.object(os, f, never))
            for f in ("rmtree", "move"):
                stack.enter_context(mock.patch.object(shutil, f, never))
            if method == "existing_directory":
                same(str(fn(name)), os.path.realpath(spelling), "%s of %r" % (method, spelling))
            else:
                raises(ParameterError, lambda: fn(name), "%s of %r" % (method, spelling))
    finally:
        os.chdir(keep)


# ---------------------------------------------------------------- lists and maps of paths

word = st.sampled_from(["a", "a/b.txt", "/abs/x", "x y", "..", "\u00e9/z", "a#b", "0", "a/b #1.txt", "x # y", "a;b", "a,b", "~/x", "$HOME/x", "a\\b", "%x%", "a  b", "\"q\"", "a:b", "file:///x", "/", "/a/", "a/", "./a", "a//b"])
lines = st.lists(
    word
    | word.map(lambda w: "  " + w + " ")
    | word.map(lambda w: w + "\t")
    | st.sampled_from(["", "  ", "#", "# comment", "   # a/b", "#a", "\t"]),
    max_size=7,
)


def check_long(case, ctx):
    """Files of hundreds or thousands of lines."""
    n, what, base, skipped, length = case
    ls = ["# %d" % i if skipped and i % skipped == 0 else "" if skipped and i % skipped == 1 else "dir%d/" % (i % 7) + "f" * length + str(i) for i in range(n)]
    if what == "map":
        check_map(([("k%d" % i, p, "", "") for i, p in enumerate(ls) if p and p[0] != "#"], base, bool(skipped), None), ctx)
    else:
        check_list((ls, what, base, "\n", None), ctx)


def check_list(case, ctx):
    ls, how, base, end, log_name = case
    d = ctx.tmp()
    if how == "direct":
        p = make({"l": list(ls)})
        texts = [x.strip() for x in ls]
    else:
        path = os.path.join(d, "list.txt")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(end.join(ls) + (end if how == "ended" else ""))
        p = make({"l": path})
        texts = [x.strip() for x in ls if x.strip() and x.strip()[0] != "#"]
    kwargs = {}
    if base is not None:
        kwargs["resolve_relative_to"] = Path(base)
    if log_name:
        kwargs["log_name"] = log_name
    want = [Path(base) / t if base is not None else Path(t) for t in texts]
    ctx.mark(len(want) != len(ls) or base is not None, how)
    got = p.path_list_from_file("l", **kwargs)
    same(list(got), want, "list of paths")
    require(all(isinstance(x, Path) for x in got), "elements are paths", got)


def check_list_absent(case, ctx):
    p = make({"l": case, "n": {}})
    ctx.mark()
    raises(ParameterError, lambda: p.path_list_from_file("l"), "list of paths of %r" % (case,))
    raises(ParameterError, lambda: p.path_list_from_file("nosuch"), "absent list of paths")
    raises(ParameterError, lambda: p.path_map_from_file("nosuch"), "absent map of paths")
    raises(ParameterError, lambda: p.path_map_from_file("l"), "map of paths of %r" % (case,))
    raises(ParameterError, lambda: p.pickled_object_from_file("nosuch"), "absent pickle")
    raises(ParameterError, lambda: p.pickled_object_from_file("l"), "pickle of %r" % (case,))


def check_map(case, ctx):
    rows, base, end_newline, bad = case
    d = ctx.tmp()
    path = os.path.join(d, "map.txt")
    texts = ["%s%s\t%s%s" % (a, k, v, b) for k, v, a, b in rows]
    if bad is not None:
        at, text = bad
        texts.insert(at % (len(texts) + 1), text)
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write("\n".join(texts) + ("\n" if end_newline and texts else ""))
    p = make({"m": path})
    kwargs = {"resolve_relative_to": Path(base)} if base is not None else {}
    fn = lambda: p.path_map_from_file("m", **kwargs)
    if bad is not None and not (bad[1] == "" and not end_newline and (bad[0] % (len(texts)) == len(texts) - 1)):
        ctx.mark(label="malformed")
        raises(IOError, fn, "map of paths with a line %r" % (bad[1],))
        return
    want = {k: Path(base) / v if base is not None else Path(v) for k, v, _, _ in rows}
    ctx.mark(len(rows) > 1, "fine")
    got = fn()
    same(dict(got.items()), want, "map of paths")
    same(list(got.keys()), list(want), "order of the map of paths")


PICKLED = [None, 0, "", [], {}, {"a": [1, 2, {"b": (3, None)}]}, (1,), b"\x00\xff", {1, 2}, 1.5, "x" * 1000, range(3), Path("/a/b")]


def check_pickle(case, ctx):
    i, protocol, behind = case
    path = os.path.join(ctx.tmp(), "x.pkl")
    with open(path, "wb") as f:
        pickle.dump(PICKLED[i], f, protocol=protocol)
        # more in the file than the first object
        if behind == "another":
            pickle.dump(PICKLED[(i + 1) % len(PICKLED)], f, protocol=protocol)
        elif behind == "bytes":
            f.write(b"trailing")
        elif behind == "newline":
            f.write(b"\n")
    ctx.mark()
    p = make({"a": {"p": path}})
    got = p.pickled_object_from_file("a.p")
    if not isinstance(got, (set, range)):
        again = p.pickled_object_from_file("a.p")
        same(again, PICKLED[i], "unpickled again")
        if isinstance(got, (list, dict)):
            require(again is not got, "the same object was given twice", got)
    same(got, PICKLED[i], "unpickled")
    require(type(got) is type(PICKLED[i]), "type of what was unpickled", got)


component = st.sampled_from(NAMES + NAMES + NAMES + ODD)
relpath = st.lists(component, min_size=1, max_size=3).map("/".join)
entry = st.tuples(relpath, st.sampled_from(["file", "dir", "file", "dir"]) | st.tuples(st.just("link"), relpath))
steps = st.lists(st.tuples(relpath, st.sampled_from(METHODS + ["creatable_empty_directory"] * 2), st.sampled_from([None, False, True, True])), min_size=1, max_size=4)
PROP = Prop(
    "C16",
    [
        Sub("history", st.tuples(st.lists(entry, max_size=8), steps, st.sampled_from(["absolute", "absolute", "relative", "dots", "slash", "dot"]), st.booleans()), check, 2000, 40,
            "a step changes the disk, or is refused"),
        Sub("absent", st.tuples(st.sampled_from(METHODS), st.booleans(), st.sampled_from([None, 1, True, ["x"], {"x": "y"}, 1.5]), st.sampled_from(["n.f", "n.g", "nosuch", "leaf.x"])), check_absent, 300, 5, "all"),
        Sub("empty_text", st.tuples(st.sampled_from(METHODS), st.booleans(), st.sampled_from(["n.f", "f"]), st.sampled_from(["content", "empty"])), check_empty_text, 60, 2, "all"),
        Sub("roots", st.tuples(st.sampled_from(["/", "//", "/.", ".", "./", "..", "/../.."]), st.sampled_from(["existing_directory", "existing_file"]), st.booleans(), st.sampled_from(["n.f", "f"])), check_roots, 60, 2, "all"),
        Sub("list", st.tuples(lines, st.sampled_from(["direct", "ended", "open"]), st.sampled_from([None, "/base/dir", "rel"]), st.sampled_from(["\n", "\n", "\r\n"]), st.sampled_from([None, "thing"])), check_list, 800, 20,
            "lines are skipped, or resolved"),
        Sub("list_absent", st.sampled_from([1, True, "/nonexistent/x", 1.5]), check_list_absent, 5, 1, "all"),
        Sub("map", st.tuples(
            st.lists(st.tuples(st.sampled_from(["k1", "k2", "a b", "", "\u00e9", "k#", "5", '"a b"', "'a b'", '"', "'x y", "k1  k2", "-k", "a=b", "a:b", "a,b", "True", "K1", "a/b", "k\\t"]), word, st.sampled_from(["", " "]), st.sampled_from(["", " ", "  "])), max_size=5, unique_by=lambda r: r[0]),
            st.sampled_from([None, "/base", "rel"]), st.booleans(), st.none() | st.none() | st.tuples(st.integers(0, 5), st.sampled_from(["", "k", "a\tb\tc", "# x", "a b", "\t\t", "k9\tb\t", "k9\tb\t ", "k9\t\tb", "\tk9\tb", "k9  b", "k9\\tb"]))),
            check_map, 800, 20, "two or more rows, or a malformed line"),
        Sub("long", st.tuples(st.integers(20, 300) | st.sampled_from([1025, 5000]), st.sampled_from(["ended", "open", "map", "map"]), st.sampled_from([None, "/base"]), st.sampled_from([0, 5, 97]), st.sampled_from([0, 3, 200])), check_long, 60, 15, "all"),
        Sub("pickle", st.tuples(st.integers(0, len(PICKLED) - 1), st.integers(0, 5), st.sampled_from([None, None, "another", "bytes", "newline"])), check_pickle, 150, 1, "all"),
    ],
    assumptions=[
        "one process uses the directories at a time",
        "the check runs in a scratch directory, and operations which change anything outside it are refused and reported",
    ],
)
