"""C11 Unification of parameters: a deep, right-biased merge which changes neither side."""
import copy

from hypothesis import strategies as st

from core import Prop, Sub, fail, raises, require, same
from props.paramgen import as_kinds, compatible_trees, exactly, leaf_items, lists, lists_of_mappings, make, names, odd, same_tree, scalars, trees
from vistautils.parameters import Parameters


class Conflict(Exception):
    pass


def merge(a, b, prefix=()):
    out = {}
    for k, v in a.items():
        if k in b:
            w = b[k]
            if isinstance(v, dict) != isinstance(w, dict):
                raise Conflict(".".join(prefix + (k,)))
            out[k] = merge(v, w, prefix + (k,)) if isinstance(v, dict) else w
        else:
            out[k] = v
    for k, w in b.items():
        if k not in a:
            out[k] = w
    return out


def conflicts(a, b, prefix=()):
    out = []
    for k in a:
        if k in b:
            if isinstance(a[k], dict) != isinstance(b[k], dict):
                out.append(".".join(prefix + (k,)))
            elif isinstance(a[k], dict):
                out.extend(conflicts(a[k], b[k], prefix + (k,)))
    return out


def check_pair(case, ctx):
    a, b, as_mapping, prefix = case
    pa, pb = make(a), make(b)
    arg = copy.deepcopy(b) if as_mapping else pb
    bad = conflicts(a, b)
    fn = (lambda: pa.unify(arg, namespace_prefix=prefix)) if prefix else (lambda: pa.unify(arg))
    ctx.mark(bool(bad) or any(k in b for k in a))
    if bad:
        ctx.label("conflict")
        e = raises(IOError, fn, "unify")
        named = [".".join(tuple(prefix) + (x,)) for x in bad]
        require(any(n in str(e) for n in named), "the message names no parameter which conflicts", str(e), named)
    else:
        want = merge(a, b)
        got = fn()
        same_tree(got, want, "unification")
        same(tuple(got.namespace_prefix), tuple(prefix), "prefix of the unification")
        if not prefix:
            same(got, make(want), "unification compared as parameters")
            same(sorted(k for k, _ in got.namespaced_items()), sorted(k for k, _ in leaf_items(want)), "qualified names")
        # everything can be looked up
        for path, value in leaf_items(want):
            require(exactly(got.get(path, object), value), "looking up %r" % path, got.get(path, object))
        if as_mapping:
            # a mapping of another kind
            for kinds in ([1, 2], [3, 4, 5], [6], [7, 8, 2, 0]):
                same_tree(pa.unify(as_kinds(b, kinds)), want, "unification with a mapping of another kind")
        # sides taken out of other parameters, which have a prefix
        inner = Parameters.from_mapping({"out": {"er": copy.deepcopy(a)}}, namespace_prefix=("p",)).namespace("out.er")
        other = arg if as_mapping else Parameters.from_mapping({"elsewhere": copy.deepcopy(b)}).namespace("elsewhere")
        taken = inner.unify(other, namespace_prefix=prefix) if prefix else inner.unify(other)
        same_tree(taken, want, "unification of a namespace")
        same(tuple(taken.namespace_prefix), tuple(prefix), "prefix of the unification of a namespace")
        same(sorted(k for k, _ in taken.namespaced_items()), sorted(k for k, _ in leaf_items(want, tuple(prefix))), "qualified names of the unification of a namespace")
        # unifying again changes nothing
        same_tree(got.unify(arg), want, "unified twice")
        if any(isinstance(v, dict) and k in a for k, v in b.items()):
            ctx.label("namespaces merged")
    same_tree(pa, a, "the left side afterwards")
    if as_mapping:
        require(exactly(arg, b), "the mapping given was changed", arg)
    else:
        same_tree(pb, b, "the right side afterwards")


def check_chain(case, ctx):
    ts = case
    want, failed = {}, False
    got = Parameters.empty()
    for t in ts:
        p = make(t)
        try:
            want = merge(want, t)
        except Conflict:
            failed = True
            raises(IOError, lambda: got.unify(p), "unify")
            break
        got = got.unify(p)
        same_tree(got, want, "after unification")
        same(sorted(k for k, _ in got.namespaced_items()), sorted(k for k, _ in leaf_items(want)), "qualified names")
    ctx.mark(len(ts) > 2 and len(want) > 1, "conflict" if failed else "fine")
    if not failed and len(ts) >= 2:
        # grouped from the right: the same unless that meets a conflict
        try:
            right = ts[-1]
            for t in reversed(ts[:-1]):
                right = merge(t, right)
        except Conflict:
            return
        acc = make(ts[-1])
        for t in reversed(ts[:-1]):
            acc = make(t).unify(acc)
        same_tree(acc, want, "grouped from the right")


small = st.sampled_from(["a", "b", "c"])
ts = trees(scalars | lists, 3, name=small) | trees(scalars | odd | lists_of_mappings, 2, name=small)


def related():
    """A tree, and another one sharing much of its shape."""

    def rebuild(tree, draw):
        out = {}
        for k, v in tree.items():
            what = draw(st.integers(0, 7))
            if what == 0:
                continue
            if what == 1:
                out[k] = draw(scalars)
            elif what == 2:
                out[k] = {draw(small): draw(scalars)}
            elif isinstance(v, dict):
                out[k] = rebuild(v, draw)
            else:
                out[k] = draw(scalars | lists)
        if draw(st.booleans()):
            k = draw(small | st.just("new"))
            out.setdefault(k, draw(scalars | st.just({}) | st.just({"z": 0})))
        return out

    @st.composite
    def pair(draw):
        t = draw(trees(scalars, 3, min_size=1, name=small))
        return t, rebuild(t, draw)

    return pair()


def check_large(case, ctx):
    """Long lists, many names and deep namespaces."""
    a, b, depth, as_mapping = case
    ctx.mark()

    def spread(part):
        """A flat tree whose values may be (length, step), long lists."""
        return {k: [i * v[1] % 7 for i in range(v[0])] if isinstance(v, tuple) else v for k, v in part.items()}

    a, b = spread(a), spread(b)
    if as_mapping or depth % 2:
        # namespaces to be unified among the many names, and within them
        a = dict(a, sub={"only": 1, "deep": dict(a, deeper={"p": 1, "both": 1})})
        b = dict({"sub": {"deep": dict(b, deeper={"q": [], "both": 2}), "new": 0}}, **b)
    for i in range(depth):
        a, b = {"n%d" % i: a, "left": i}, {"right": True, "n%d" % i: b}
    pa, pb = make(a), make(b)
    want = merge(a, b)
    got = pa.unify(copy.deepcopy(b) if as_mapping else pb)
    same_tree(got, want, "unification")
    for path, value in leaf_items(want):
        require(exactly(got.get(path, object), value), "looking up %r" % path, got.get(path, object))
    same_tree(pa, a, "the left side afterwards")
    same_tree(pb, b, "the right side afterwards")


many = st.dictionaries(st.integers(0, 40).map(lambda i: "k%d" % i), scalars | st.tuples(st.sampled_from([1, 11, 51, 101, 257, 1001]), st.integers(0, 3)), min_size=5, max_size=40)
PROP = Prop(
    "C11",
    [
        Sub("pair", st.tuples(ts, ts, st.booleans(), st.lists(names, max_size=2)) | st.tuples(related(), st.booleans(), st.lists(names, max_size=2)).map(lambda x: (x[0][0], x[0][1], x[1], x[2])),
            check_pair, 2500, 40, "a name is on both sides, or there is a conflict"),
        Sub("large", st.tuples(many, many, st.integers(0, 12) | st.sampled_from([30, 60]), st.booleans()), check_large, 150, 15, "all"),
        Sub("chain", st.lists(trees(scalars, 2, name=small), max_size=5) | st.lists(compatible_trees(scalars | lists, 2), min_size=2, max_size=5).map(list), check_chain, 1000, 30, "three or more parts and two or more names"),
    ],
    assumptions=["no parameter has the value None", "the parameters unified are not namespaces taken out of others when qualified names are compared"],
)
