"""C28 Iterator helpers: drop, windowed, tile_with_pairs, only, get_only, non_none, flatten."""
import array
import collections
import collections.abc
import csv
import io
import itertools

from hypothesis import strategies as st

from core import Prop, Sub, fail, raises, require, same
from vistautils.collection_utils import get_only
from vistautils.iter_utils import drop, non_none, only, windowed
from vistautils.iterutils import tile_with_pairs
from vistautils.misc_utils import flatten_once_to_list


class EqualToAll:
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1

    def __repr__(self):
        return "EqualToAll()"


class NoTruth:
    """Neither comparable nor true or false."""

    def __eq__(self, other):
        raise TypeError("not comparable")

    def __ne__(self, other):
        raise TypeError("not comparable")

    def __bool__(self):
        raise TypeError("no truth value")

    __hash__ = None


class ReIterable:
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


class FromOne(collections.abc.Sequence):
    """A sequence which numbers its elements from one."""

    def __init__(self, xs):
        self.xs = list(xs)

    def __len__(self):
        return len(self.xs)

    def __iter__(self):
        return iter(self.xs)

    def __getitem__(self, i):
        return self.xs[i - 1] if 0 < i <= len(self.xs) else "none"


class OwnList(list):
    """A list whose elements are not what is stored."""

    def __init__(self, xs):
        super().__init__("stored %d" % i for i, _ in enumerate(xs))
        self.xs = list(xs)

    def __iter__(self):
        return iter(self.xs)


class Counting:
    """An iterator which counts how far it was read."""

    def __init__(self, xs):
        self.xs = xs
        self.pos = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self.xs):
            raise StopIteration
        self.pos += 1
        return self.xs[self.pos - 1]


SPECIAL = {"ALL": EqualToAll, "NOTRUTH": NoTruth, "ELLIPSIS": lambda: Ellipsis, "NOTIMPLEMENTED": lambda: NotImplemented, "NAN": lambda: float("nan"), "STOP": lambda: StopIteration}


def real(xs):
    return [SPECIAL[x]() if isinstance(x, str) and x in SPECIAL else x for x in xs]


def alike(g, w):
    return g is w or type(g) is type(w) and type(g) in (str, int) and g == w


def shapes(xs):
    return {
        "list": lambda: list(xs),
        "text": lambda: "".join(map(str, xs)),
        "bytes": lambda: bytes(range(len(xs))),
        "dict": lambda: dict.fromkeys(range(len(xs))),
        "range": lambda: range(len(xs)),
        "range by 3": lambda: range(1, 3 * len(xs) + 1, 3),
        "range down": lambda: range(len(xs), 0, -1),
        "tuple": lambda: tuple(xs),
        "reiterable": lambda: ReIterable(xs),
        "from one": lambda: FromOne(xs),
        "own list": lambda: OwnList(xs),
        "iter": lambda: iter(xs),
        "generator": lambda: (x for x in xs),
        "counting": lambda: Counting(xs),
    }


ITERATORS = ("iter", "generator", "counting")
INNER = st.sampled_from(["list", "tuple", "reiterable", "from one", "own list", "iter", "generator", "counting", "text", "bytes", "dict", "range", "range by 3", "range down"])
SHAPES = st.sampled_from(["list", "tuple", "reiterable", "from one", "own list", "iter", "generator", "counting"])


def identical(got, want, what):
    got = list(got)
    require(
        len(got) == len(want) and all(alike(g, w) for g, w in zip(got, want)),
        "%s" % what,
        got,
        want,
    )


def special(shape, xs):
    """Texts, bytes and mappings are iterables of characters, numbers and keys."""
    if shape == "text":
        return list("".join(map(str, xs)))
    if shape == "range by 3":
        return [3 * i + 1 for i in range(len(xs))]
    if shape == "range down":
        return list(range(len(xs), 0, -1))
    if shape in ("bytes", "dict", "range"):
        return list(range(len(xs)))
    return xs


def check_drop(case, ctx):
    xs, n, shape = case
    xs = special(shape, real(xs))
    src = shapes(xs)[shape]()
    if n < 0:
        ctx.mark(label="negative")
        raises(ValueError, lambda: drop(src, n), "drop of a negative number")
        return
    d = drop(src, n)
    ctx.label(shape)
    ctx.mark(0 < n < len(xs))
    identical(d, xs[n:], "drop(%s, %d)" % (shape, n))
    if shape in ITERATORS:
        require(hasattr(d, "__next__"), "drop of an iterator is not an iterator")
        identical(d, [], "the exhausted iterator")
        # nothing is read before the result is
        src = shapes(xs)[shape]()
        d = drop(src, n)
        seen = [next(src)] if xs else []
        identical(seen + list(d), xs[:1] + xs[1 + n:], "drop of an iterator which is read in between")
        require(next(src, xs) is xs, "drop does not use the iterator up which it was given")
        # neither is anything decided before the result is read: what the iterator reads may still grow
        growing = list(xs)
        src = iter(growing)
        d = drop(src, n)
        growing.extend(["late", "later"])
        identical(d, growing[n:], "drop of an iterator of a list which grew")
        require(next(src, xs) is xs, "drop does not use the iterator up which it was given")
    else:
        identical(d, xs[n:], "the second pass over drop(%s, %d)" % (shape, n))
        if shape == "list":
            # the list is not copied: items which are added later are found, even while it is read
            growing = list(xs)
            d = drop(growing, n)
            growing.append("late")
            identical(d, growing[n:], "drop of a list which grew")
            i = iter(d)
            seen = [next(i, None)]
            growing.extend(["later", "latest"])
            if len(growing) - 2 > n:
                identical(seen + list(i), growing[n:], "drop of a list which grows while it is read")
        # interleaved passes are independent
        i, j = iter(d), iter(d)
        a = [next(i, None) for _ in range(2)]
        b = [next(j, None) for _ in range(2)]
        identical(a, b, "interleaved passes")


def check_windowed(case, ctx):
    xs, w, partial, shape = case
    xs = special(shape, real(xs))
    src = shapes(xs)[shape]()
    if w < 1:
        ctx.mark(label="illegal")
        raises(ValueError, lambda: windowed(src, w, partial_windows=partial), "window size %d" % w)
        return
    if partial:
        want = [xs[i : i + w] for i in range(len(xs))]
        if len(xs) < w:
            # the first window is everything, then it shrinks
            want = [xs[i:] for i in range(len(xs))]
    else:
        want = [xs[i : i + w] for i in range(len(xs) - w + 1)] if len(xs) >= w else []
    ctx.label(shape, "partial" if partial else "complete", "short" if len(xs) < w else "long")
    ctx.mark(1 < w <= len(xs) or (partial and 1 < len(xs)))
    win = windowed(src, w, partial_windows=partial)
    rounds = 1 if shape in ITERATORS else 2
    for r in range(rounds):
        got = list(win)
        same(len(got), len(want), "number of windows of %d over %d items (pass %d)" % (w, len(xs), r))
        for g, e in zip(got, want):
            require(isinstance(g, tuple), "a window is not a tuple", g)
            identical(g, e, "window of size %d, partial=%s" % (w, partial))
    if shape in ITERATORS and len(xs):
        growing = list(xs)
        win = windowed(iter(growing), w, partial_windows=partial)
        growing.extend(["late"] * w)
        require(any(x is growing[-1] for g in win for x in g), "windows of an iterator of a list which grew")
    if shape in ITERATORS:
        require(hasattr(win, "__next__"), "windows of an iterator are not an iterator")
        src = shapes(xs)[shape]()
        win = windowed(src, w, partial_windows=partial)
        if xs:
            require(next(src) is xs[0], "windows read their iterator before they are read")
            got = list(win)
            same(len(got), max(0, len(want) - 1), "number of windows of the rest")
            for g, e in zip(got, want[1:]):
                identical(g, e, "window of the rest")
    if shape == "list" and 0 < w:
        # windows of a list follow what the list is when they are read
        growing = list(xs)
        win = windowed(growing, w, partial_windows=partial)
        growing.append("late")
        require(any(x is growing[-1] for g in win for x in g) or not partial and len(growing) < w, "windows of a list which grew", list(win))
    if not partial:
        src = shapes(xs)[shape]()
        default = [tuple(x) for x in windowed(src, w)]
        same(len(default), len(want), "windows without partial_windows")
    if w == 2:
        got = list(tile_with_pairs(shapes(xs)[shape]()))
        same(len(got), max(0, len(xs) - 1), "number of pairs")
        for i, g in enumerate(got):
            identical(g, xs[i : i + 2], "pair %d" % i)


def check_stacked(case, ctx):
    """Helpers applied to what helpers gave."""
    xs, shape, steps = case
    want = special(shape, list(xs))
    got = shapes(want)[shape]()
    again = shape not in ITERATORS
    for kind, n, partial in steps:
        if kind == "drop":
            got, want = drop(got, n), want[n:]
        elif kind == "windowed":
            n = n + 1
            got = windowed(got, n, partial_windows=partial)
            full = [tuple(want[i:i + n]) for i in range(len(want) - n + 1)]
            want = [tuple(want[i:i + n]) for i in range(len(want))] if partial else full
        elif kind == "non_none":
            got, again = non_none(got), False
        else:
            got, again = flatten_once_to_list((x, x) for x in got), True
            want = [y for x in want for y in (x, x)]
    ctx.mark(len(steps) > 1 and len(want) > 0)
    same(list(got), want, "stacked helpers")
    if again:
        same(list(got), want, "stacked helpers, a second pass")


def check_only(case, ctx):
    xs, shape = case
    xs = special(shape, real(xs))
    ctx.label("n=%d" % min(len(xs), 3), shape)
    ctx.mark(len(xs) != 1 or xs[0] is None or not isinstance(xs[0], int))
    for name, f in (("only", only), ("get_only", get_only)):
        src = shapes(xs)[shape]()
        if len(xs) == 1:
            require(alike(f(src), xs[0]), "%s does not return the element itself" % name, xs)
        else:
            raises((ValueError, LookupError), lambda: f(src), "%s of %d items" % (name, len(xs)))
        if shape == "counting":
            require(src.pos <= 2, "%s reads further than the second element" % name)


def check_non_none(case, ctx):
    xs, shape = case
    xs = real(xs)
    ctx.mark(any(x is None for x in xs) and any(x is not None for x in xs))
    identical(non_none(shapes(xs)[shape]()), [x for x in xs if x is not None], "non_none(%s)" % shape)
    if shape == "list":
        # what grows while it is read is read to its end
        growing = list(xs)
        rest = iter(non_none(growing))
        seen = list(itertools.islice(rest, 1))
        if seen:
            growing.extend([None, "late"])
            identical(seen + list(rest), [x for x in growing if x is not None], "non_none of a list which grows")


def check_flatten(case, ctx):
    xss, outer, inner = case
    xss = [special(inner, real(xs)) for xs in xss]
    ctx.mark(len(xss) > 1 and any(xss))
    arg = shapes([shapes(xs)[inner]() for xs in xss])[outer]()
    got = flatten_once_to_list(arg)
    require(isinstance(got, list), "flatten_once_to_list does not return a list")
    # mappings are iterables of their keys
    keys = {tuple(xs): [0] for xs in xss if inner not in ("dict",) and not any(isinstance(x, NoTruth) for x in xs)}
    for mapping in (keys, collections.UserDict(keys), collections.OrderedDict(keys)):
        identical(flatten_once_to_list(mapping), [x for k in keys for x in k], "flatten_once_to_list of a mapping")
        identical(flatten_once_to_list([mapping, mapping.keys()]), list(keys) * 2, "flatten_once_to_list of mappings")
    identical(got, [x for xs in xss for x in xs], "flatten_once_to_list")
    # what is given is not changed, and not given back
    inner_lists = [list(xs) for xs in xss]
    given = tuple(inner_lists)
    got = flatten_once_to_list(given)
    got.append("added")
    for before, after in zip(xss, inner_lists):
        identical(after, before, "a list which was flattened")


class Far:
    """An iterable of more elements than should be read."""

    def __init__(self):
        self.read = 0

    def __iter__(self):
        for i in range(10 ** 4):
            self.read = max(self.read, i + 1)
            yield i


def check_infinite(case, ctx):
    """Helpers are lazy on iterators: they work on endless ones and read no more than needed."""
    import itertools

    n, w, take = case
    ctx.mark()
    same(list(itertools.islice(drop(itertools.count(), n), take)), list(range(n, n + take)), "drop of an endless iterator")
    for partial in (False, True):
        got = list(itertools.islice(windowed(itertools.count(), w, partial_windows=partial), take))
        same(got, [tuple(range(i, i + w)) for i in range(take)], "windows over an endless iterator")
    got = list(itertools.islice(non_none(None if i % 3 else i for i in itertools.count()), take))
    same(got, [3 * i for i in range(take)], "non_none of an endless iterator")
    raises((ValueError, LookupError), lambda: only(itertools.count()), "only of an endless iterator")
    raises((ValueError, LookupError), lambda: get_only(itertools.count()), "get_only of an endless iterator")
    # iterables which are no iterators, and end only when they are read much too far
    for name, f in (("only", only), ("get_only", get_only)):
        far = Far()
        raises((ValueError, LookupError), lambda: f(far), name + " of a very long iterable")
        require(far.read <= 2, "%s reads further than the second element" % name, far.read)
    for what, f in (("drop", lambda x: drop(x, n)), ("windowed", lambda x: windowed(x, w)), ("partial windows", lambda x: windowed(x, w, partial_windows=True)), ("non_none", non_none)):
        far = Far()
        got = list(itertools.islice(iter(f(far)), take))
        require(far.read <= n + w + take + 1, "%s reads further than needed" % what, far.read)


class Broken(Exception):
    pass


class Breaking:
    """An iterable which fails at some element."""

    def __init__(self, at, error):
        self.at, self.error = at, error

    def __iter__(self):
        for i in range(self.at):
            yield i
        raise self.error


def until_error(it, error, what):
    """What an iterable gives before it fails."""
    got = []
    try:
        for x in it:
            got.append(x)
    except type(error) as e:
        require(e is error, "%s fails with another error" % what, e)
    else:
        fail("%s does not fail though what it reads does" % what, got)
    return got


def check_errors(case, ctx):
    """Errors raised by what is read are passed on, after the elements before."""
    at, n, w, iterator, kind = case
    error = {"own": Broken, "key": KeyError, "value": ValueError, "type": TypeError, "os": OSError}[kind]("x")
    make = (lambda: iter(Breaking(at, error))) if iterator else (lambda: Breaking(at, error))  # noqa
    ctx.mark(at > 0)
    same(until_error(drop(make(), n), error, "drop"), list(range(n, at)), "elements of drop before an error")
    for partial in (False, True):
        got = until_error(windowed(make(), w, partial_windows=partial), error, "windowed")
        same(got, [tuple(range(i, i + w)) for i in range(at - w + 1)], "windows before an error")
    same(until_error(non_none(make()), error, "non_none"), list(range(at)), "elements before an error")
    until_error(tile_with_pairs(make()), error, "tile_with_pairs")
    for name, f in (("only", only), ("get_only", get_only)):
        if at < 2:
            e = raises(type(error), lambda: f(make()), "%s of what fails" % name)
            require(e is error or at == 0 and isinstance(error, ValueError), "%s fails with another error" % name, e)
    for arg in ([make()], [[1], make()], Breaking(0, error)):
        e = raises(type(error), lambda: flatten_once_to_list(arg), "flatten_once_to_list of what fails")
        require(e is error, "flatten_once_to_list fails with another error", e)


def check_kinds(case, ctx):
    """Iterators and iterables of the standard library."""
    kind, n, k, w, partial = case
    lines = ["%d\n" % i for i in range(n)]
    text = "".join(lines)
    a = list(range(n))
    make, want = {
        "text file": (lambda: io.StringIO(text), lines),
        "byte file": (lambda: io.BytesIO(text.encode()), [x.encode() for x in lines]),
        "buffered file": (lambda: io.BufferedReader(io.BytesIO(text.encode())), [x.encode() for x in lines]),
        "wrapped file": (lambda: io.TextIOWrapper(io.BytesIO(text.encode())), lines),
        "map": (lambda: map(lambda x: -x, a), [-x for x in a]),
        "filter": (lambda: filter(lambda x: x % 2, a), [x for x in a if x % 2]),
        "zip": (lambda: zip(a, a), list(zip(a, a))),
        "enumerate": (lambda: enumerate(a), list(enumerate(a))),
        "reversed": (lambda: reversed(a), a[::-1]),
        "dictionary iterator": (lambda: iter(dict.fromkeys(a)), a),
        "chain": (lambda: itertools.chain(a, a), a + a),
        "permutations": (lambda: itertools.permutations(a[:4]), list(itertools.permutations(a[:4]))),
        "csv": (lambda: csv.reader(lines), [[x.strip()] for x in lines]),
        "keys": (lambda: dict.fromkeys(a).keys(), a),
        "values": (lambda: dict(zip(a, a)).values(), a),
        "deque": (lambda: collections.deque(a), a),
        "array": (lambda: array.array("i", a), a),
        "memory": (lambda: memoryview(bytes(a)), a),
        "frozen": (lambda: dict.fromkeys(a).items(), [(x, None) for x in a]),
    }[kind]
    ctx.label(kind)
    ctx.mark(len(want) > k > 0)
    iterator = hasattr(make(), "__next__")

    def windows():
        full = [tuple(want[i:i + w]) for i in range(len(want) - w + 1)]
        if not partial:
            return full
        return [tuple(want[i:i + w]) for i in range(len(want))] if len(want) >= w else [tuple(want[i:]) for i in range(len(want))]

    for what, f, result in (
        ("drop", lambda x: drop(x, k), want[k:]),
        ("windowed", lambda x: windowed(x, w, partial_windows=partial), windows()),
        ("non_none", non_none, want),
        ("flatten", lambda x: flatten_once_to_list([x, x] if not iterator else [x]), want if iterator else want + want),
    ):
        got = f(make())
        if iterator and what in ("drop", "windowed"):
            require(hasattr(got, "__next__"), "%s of an iterator (%s) is not an iterator" % (what, kind))
        same(list(got), result, "%s of %s" % (what, kind))
        if not iterator and what in ("drop", "windowed"):
            same(list(got), result, "the second pass over %s of %s" % (what, kind))
    for name, f in (("only", only), ("get_only", get_only)):
        if len(want) == 1:
            same(f(make()), want[0], "%s of %s" % (name, kind))
        else:
            raises(ValueError, lambda: f(make()), "%s of %s" % (name, kind))


KINDS = ["text file", "byte file", "buffered file", "wrapped file", "map", "filter", "zip", "enumerate", "reversed", "dictionary iterator", "chain", "permutations", "csv",
         "keys", "values", "deque", "array", "memory", "frozen"]


def check_many(case, ctx):
    """Numbers beyond what is usual."""
    n, more, shape, w = case
    ctx.mark()
    xs = range(n + more)
    identical(drop(shapes(xs)[shape](), n), xs[n:], "drop of many")
    if shape != "counting":
        same(sum(1 for _ in windowed(shapes(xs)[shape](), w)), max(0, n + more - w + 1), "number of windows")
        same(sum(1 for _ in windowed(shapes(xs)[shape](), w, partial_windows=True)), n + more, "number of windows, partial ones as well")
        wide = n // 2 + 1
        for size in (n - 1, wide, n + more + 1):
            for partial in (False, True):
                if partial and size > n + more:
                    firsts = list(itertools.islice(windowed(shapes(xs)[shape](), size, partial_windows=True), 2))
                    same([len(x) for x in firsts], [n + more, n + more - 1], "sizes of the first windows, wider than all")
                    continue
                some = list(itertools.islice(windowed(shapes(xs)[shape](), size, partial_windows=partial), 2))
                full = n + more - size + 1
                same([(len(x), x[0], x[-1]) for x in some], [(size, i, i + size - 1) for i in range(max(0, min(2, full)))], "the first wide windows")
        same(sum(1 for _ in non_none(shapes(xs)[shape]())), n + more, "number of elements which are not None")
        same(len(flatten_once_to_list([shapes(xs)[shape]()] * 2 if shape not in ITERATORS else [shapes(xs)[shape](), xs])), 2 * (n + more), "number of flattened elements")
        same(len(flatten_once_to_list([x] for x in xs)), n + more, "number of flattened elements")
        same(len(flatten_once_to_list([xs, (), [1], "", xs])), 2 * (n + more) + 1, "number of flattened elements, some of nothing")


elems = st.one_of(st.integers(-2, 3), st.sampled_from([None, "", "a", 0.0, False, (), "ALL", "NOTRUTH", "ELLIPSIS", "NOTIMPLEMENTED", "NAN", "STOP"]))
lists = st.lists(elems, max_size=9) | st.lists(elems, max_size=9) | st.integers(0, 80).map(lambda n: list(range(n)))

PROP = Prop(
    "C28",
    [
        Sub("drop", st.tuples(lists, st.integers(-2, 11) | st.integers(0, 90), INNER), check_drop, 1500, 30, "some but not all are dropped, or a negative number"),
        Sub("windowed", st.tuples(lists, st.integers(-1, 6) | st.integers(1, 4) | st.just(50) | st.integers(1, 90), st.booleans(), INNER), check_windowed, 3000, 30,
            "windows of several elements, or an illegal size"),
        Sub("only", st.tuples(st.lists(elems, max_size=3) | elems.map(lambda x: [x]), SHAPES | INNER), check_only, 1500, 30, "not one element, or one which is not an int"),
        Sub("stacked", st.tuples(st.lists(st.integers(0, 9), max_size=9), INNER, st.lists(st.tuples(st.sampled_from(["drop", "drop", "windowed", "non_none", "flatten"]), st.integers(0, 3), st.booleans()), min_size=1, max_size=4)), check_stacked, 600, 20, "several helpers, some elements"),
        Sub("non_none", st.tuples(lists, SHAPES), check_non_none, 1000, 30, "both None and others"),
        Sub("flatten", st.tuples(st.lists(lists, max_size=5), SHAPES, INNER), check_flatten, 1000, 30, "several, not all empty"),
        Sub("kinds", st.tuples(st.sampled_from(KINDS), st.integers(0, 3) | st.integers(0, 40), st.integers(0, 5), st.integers(1, 5), st.booleans()), check_kinds, 600, 10, "some but not all are dropped"),
        Sub("many", st.tuples(st.sampled_from([1000, 1025, 4097, 10001, 65537, 70000, 131073]), st.integers(0, 50), st.sampled_from(["list", "tuple", "reiterable", "iter", "generator", "counting"]), st.sampled_from([1, 2, 60])), check_many, 30, 10, "all"),
        Sub("errors", st.tuples(st.integers(0, 6), st.integers(0, 4), st.integers(1, 4), st.booleans(), st.sampled_from(["own", "key", "value", "type", "os"])), check_errors, 400, 10, "not the first element"),
        Sub("endless", st.tuples(st.integers(0, 40), st.integers(1, 6), st.integers(0, 12)), check_infinite, 400, 10, "all"),
    ],
)
