"""C12 Parameters and plain data: nested dictionaries, qualified items and pairs round-trip."""
import copy

from hypothesis import strategies as st

from core import Prop, Sub, raises, require, same
from props.paramgen import as_kinds, exactly, leaf_items, lists, lists_of_mappings, make, mapping_kinds, names, odd, paths, resolve, same_tree, scalars, trees
from vistautils.parameters import Parameters


def thaw(d):
    """Change every dictionary of a tree in place."""
    for v in list(d.values()):
        if isinstance(v, dict):
            thaw(v)
    d.clear()
    d["changed"] = 1


def check_tree(case, ctx):
    tree, prefix = case
    source = copy.deepcopy(tree)
    p = Parameters.from_mapping(source, namespace_prefix=prefix) if prefix else Parameters.from_mapping(source)
    ctx.mark(any(isinstance(v, dict) for v in tree.values()), "nested")
    same_tree(p, tree, "as nested dictionaries")
    require(exactly(source, tree), "the mapping was changed", source)
    # the parameters do not follow later changes of the mapping they were made from
    thaw(source)
    same_tree(p, tree, "after the mapping was changed")
    # nor those of the dictionaries they gave
    thaw(p.as_nested_dicts())
    same_tree(p, tree, "after the dictionaries were changed")
    same(tuple(p.namespace_prefix), tuple(prefix), "prefix")
    # qualified names
    items = list(p.namespaced_items())
    want = leaf_items(tree, tuple(prefix))
    same([k for k, _ in items], [k for k, _ in want], "qualified names")
    for (k, v), (_, w) in zip(items, want):
        require(exactly(v, w), "value of %r" % k, v, w)
    # the prefix may be any iterable
    for given in (list(prefix), iter(prefix), (x for x in prefix), dict.fromkeys(prefix) if len(set(prefix)) == len(prefix) else tuple(prefix)):
        other = Parameters.from_mapping(copy.deepcopy(tree), namespace_prefix=given)
        same(tuple(other.namespace_prefix), tuple(prefix), "prefix given as an iterable")
        same([k for k, _ in other.namespaced_items()], [k for k, _ in want], "qualified names with a prefix given as an iterable")
        for path in paths(tree):
            if all(path) and isinstance(resolve(tree, ".".join(path)), dict):
                same(other.namespace(".".join(path)).namespace_prefix, tuple(prefix) + tuple(path), "prefix of a namespace")
    # equality is that of the content
    q = Parameters.from_mapping(p.as_nested_dicts(), namespace_prefix=prefix)
    same(p, q, "made again from its dictionaries")
    require(not (p != q), "equal and unequal")
    for path in paths(tree):
        other = copy.deepcopy(tree)
        d = other
        for k in path[:-1]:
            d = d[k]
        d[path[-1]] = "something else entirely"
        require(Parameters.from_mapping(other, namespace_prefix=prefix) != p, "parameters with different values are equal", path)
        del d[path[-1]]
        require(Parameters.from_mapping(other, namespace_prefix=prefix) != p, "parameters with a value less are equal", path)
    # from pairs (which cannot express empty namespaces)
    if not prefix:
        def without_empty(t):
            out = {}
            for k, v in t.items():
                if isinstance(v, dict):
                    v = without_empty(v)
                    if not v:
                        continue
                out[k] = v
            return out

        if all(all(x) for x in paths(tree)):
            for sep in (None, "/"):
                pairs = [(k if sep is None else k.replace(".", sep), v) for k, v in p.namespaced_items()]
                r = Parameters.from_key_value_pairs(pairs) if sep is None else Parameters.from_key_value_pairs(pairs, namespace_separator=sep)
                same_tree(r, without_empty(tree), "made again from its items, separator %r" % sep)
                r = Parameters.from_key_value_pairs(reversed(pairs)) if sep is None else Parameters.from_key_value_pairs(iter(pairs[::-1]), sep)
                same_tree(r, without_empty(tree), "made again from its items backwards, separator %r" % sep)


def check_hash(case, ctx):
    p = make(case)

    def backwards(t):
        return {k: backwards(v) if isinstance(v, dict) else v for k, v in reversed(list(t.items()))}

    q = make(backwards(case))
    ctx.mark(len(case) > 1)
    same(p, q, "in another order")
    same(hash(p), hash(q), "hash in another order")
    for path in paths(case):
        v = resolve(case, ".".join(path))
        if isinstance(v, dict) and all(path):
            same(p.namespace(".".join(path)), q.namespace(".".join(path)), "namespace in another order")


def check_pairs(case, ctx):
    """Pairs in any order: parents are made as needed, later ones win, conflicts are not judged."""
    pairs, sep = case
    pairs = [(sep.join(k), v) for k, v in pairs]
    tree, may_refuse = {}, False
    for k, v in pairs:
        if k == "":
            ctx.mark(label="empty name")
            raises((RuntimeError, ValueError), lambda: Parameters.from_key_value_pairs(pairs, sep), "pairs with an empty name")
            return
        d = tree
        parts = k.split(sep)
        for part in parts[:-1]:
            d = d.setdefault(part, {})
            if not isinstance(d, dict):
                ctx.mark(label="below a leaf")
                raises(Exception, lambda: Parameters.from_key_value_pairs(pairs, sep), "pairs with a name below one which has a value")
                return
        if isinstance(d.get(parts[-1]), dict):
            # a leaf where a namespace was: replaces this unless it is refused
            may_refuse = True
        d[parts[-1]] = v
    ctx.mark(len(pairs) > len(leaf_items(tree)), "replaced")
    ctx.mark(len(tree) > 1)
    if may_refuse:
        ctx.label("value for a namespace")
        try:
            Parameters.from_key_value_pairs(pairs, sep)
        except Exception:  # noqa
            return
    same_tree(Parameters.from_key_value_pairs(pairs, sep), tree, "from pairs")
    if sep == ".":
        same_tree(Parameters.from_key_value_pairs(tuple(pairs)), tree, "from pairs, default separator")


def check_given_namespaces(case, ctx):
    """Pairs some of whose values are mappings of any kind: namespaces, which later pairs may add to."""
    pairs, shared, kinds = case
    one = as_kinds(shared, kinds)
    given, tree = [], {}
    for parts, v in pairs:
        d = tree
        for part in parts[:-1]:
            d = d.setdefault(part, {})
            if not isinstance(d, dict):
                ctx.mark(label="below a leaf")
                return
        if isinstance(d.get(parts[-1]), dict):
            ctx.mark(label="value for a namespace")
            return
        ctx.mark(len(parts) > 1 and d is not tree and v != "shared", "added to a namespace")
        d[parts[-1]] = copy.deepcopy(shared if v == "shared" else v)
        given.append((".".join(parts), one if v == "shared" else as_kinds(v, kinds) if isinstance(v, dict) else v))
    before = [(k, repr(v)) for k, v in given]
    same_tree(Parameters.from_key_value_pairs(given), tree, "from pairs with namespaces")
    same_tree(Parameters.from_key_value_pairs(iter(given)), tree, "from pairs with namespaces, again")
    same([(k, repr(v)) for k, v in given], before, "the values given, afterwards")


def check_refused(case, ctx):
    tree, path, bad = case
    # a name with a dot is refused at any depth
    t = copy.deepcopy(tree)
    d = t
    for k in path:
        if not isinstance(d.get(k), dict):
            d[k] = {}
        d = d[k]
    d[bad] = 1
    ctx.mark("." in bad, "refused" if "." in bad else "fine")
    if "." in bad:
        raises(Exception, lambda: Parameters.from_mapping(t), "a name with a dot")
    else:
        same_tree(Parameters.from_mapping(t), t, "names without a dot")


def retyped(v):
    """The same value of another type: equal, but not to be mixed up."""
    if isinstance(v, dict):
        return {k: retyped(x) for k, x in v.items()}
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return bool(v) if v in (0, 1) else float(v) if abs(v) < 1000 else v
    if isinstance(v, float) and v.is_integer() and abs(v) < 1000:
        return int(v)
    return copy.deepcopy(v)


def check_objects(case, ctx):
    """Namespaces given as Parameters, some of them equal but for the types of their values."""
    ns, order, how = case
    ctx.mark(bool(ns))
    variants = {"one": ns, "two": retyped(ns), "three": copy.deepcopy(ns), "four": {"deep": retyped(ns)}}
    tree = {k: variants[k] for k in order}
    if how == "shared":
        same_one, same_two = make(ns), make(retyped(ns))
        given = {k: {"one": same_one, "two": same_two, "three": same_one}.get(k) or {"deep": same_two} for k in order}
    else:
        given = {k: make(variants[k]) for k in order}
    # some of them had another place before
    for n, k in enumerate(order):
        if n % 2:
            given[k] = Parameters.from_mapping({"was": {"elsewhere": given[k]}}).namespace("was.elsewhere")
            if how == "own":
                given[k] = Parameters.from_mapping({"was": variants[k]}).namespace("was")
    p = Parameters.from_mapping(given)
    same_tree(p, tree, "namespaces given as parameters")
    same([k for k, _ in p.namespaced_items()], [k for k, _ in leaf_items(tree)], "qualified names with namespaces given as parameters")
    for k in order:
        same_tree(p.namespace(k), variants[k], "namespace %s" % k)
    if how == "unify":
        q = Parameters.empty()
        for k in order:
            q = q.unify({k: given[k]})
        same_tree(q, tree, "namespaces given as parameters, unified")
        same([k for k, _ in q.namespaced_items()], [k for k, _ in leaf_items(tree)], "qualified names with namespaces given as parameters, unified")


def check_kinds(case, ctx):
    """Mappings of any kind are namespaces, at every depth."""
    tree, kinds, prefix = case
    p = Parameters.from_mapping(as_kinds(tree, kinds), namespace_prefix=prefix)
    ctx.mark(any(kinds) and any(isinstance(v, dict) for v in tree.values()))
    same_tree(p, tree, "from mappings of other kinds")
    same(p, Parameters.from_mapping(copy.deepcopy(tree), namespace_prefix=prefix), "from mappings of other kinds")
    same([k for k, _ in p.namespaced_items()], [k for k, _ in leaf_items(tree, tuple(prefix))], "qualified names")
    for path in paths(tree):
        if all(path) and isinstance(resolve(tree, ".".join(path)), dict):
            same(p.namespace(".".join(path)).namespace_prefix, tuple(prefix) + tuple(path), "prefix of a namespace")


def check_large(case, ctx):
    """Many names in one namespace, long lists, deep namespaces; order is kept."""
    names, depth, prefix = case
    d = {}
    for i, (k, kind) in enumerate(names):
        d[k] = {"ns": {"x": i, "y": [i]}, "empty": {}, "int": i, "list": list(range(i)), "text": "t" * i, "false": False}[kind]
    ctx.mark(len(d) > 16)
    tree = d
    for i in range(depth):
        tree = {"first%d" % i: i, "d%d" % i: tree, "last": True}
    p = make(tree) if not prefix else Parameters.from_mapping(copy.deepcopy(tree), namespace_prefix=prefix)
    got = p.as_nested_dicts()
    require(exactly(got, tree), "nested dictionaries", got)

    def order(t):
        return [(k, order(v) if isinstance(v, dict) else None) for k, v in t.items()]

    same(order(got), order(tree), "order of the names")
    items = list(p.namespaced_items())
    want = leaf_items(tree, tuple(prefix))
    same([k for k, _ in items], [k for k, _ in want], "qualified names")
    for (k, v), (_, w) in zip(items, want):
        require(exactly(v, w), "value of %r" % k, v, w)
    if not prefix:
        for path, value in want:
            require(exactly(p.get(path, object), value), "looking up %r" % path)
        q = Parameters.from_key_value_pairs(items)
        same(list(q.namespaced_items()), items, "made again from its items")


def check_not_mapping(case, ctx):
    ctx.mark()
    raises(Exception, lambda: Parameters.from_mapping(case), "parameters from %r" % (case,))


def check_empty(case, ctx):
    p = Parameters.empty(namespace_prefix=case) if case else Parameters.empty()
    ctx.mark(bool(case))
    same_tree(p, {}, "empty parameters")
    same(list(p.namespaced_items()), [], "items of empty parameters")
    same(tuple(p.namespace_prefix), tuple(case), "prefix")
    if not case:
        same(p, Parameters.from_mapping({}), "empty parameters")


small = st.sampled_from(["a", "b", "c", "x y", " ", "\t", " a", "0"])
PROP = Prop(
    "C12",
    [
        Sub("tree", st.tuples(trees() | trees(scalars | odd | lists_of_mappings) | trees(name=names | st.just("")), st.just(()) | st.lists(names, max_size=2).map(tuple)), check_tree, 1500, 40, "has a namespace"),
        Sub("hash", trees(scalars, 2), check_hash, 500, 30, "two or more names"),
        Sub("pairs", st.tuples(st.lists(st.tuples(st.lists(small, min_size=1, max_size=3), scalars | lists | st.none()), max_size=7).flatmap(
            lambda l: st.integers(0, 9).map(lambda i: l[: i // 2] + [([""], 1)] + l[i // 2:] if i == 7 else l)), st.sampled_from([".", ".", "/", "::", "||", "|", ".*", "[", "+", "..", "\\", "^", "$", "a|b"])),
            check_pairs, 1500, 30, "two or more names, replaced values, or an empty name"),
        Sub("given_namespaces", st.tuples(st.lists(st.tuples(st.lists(small, min_size=1, max_size=3), st.just("shared") | trees(scalars, 1, name=small) | scalars), min_size=1, max_size=5), trees(scalars, 2, name=small), mapping_kinds),
            check_given_namespaces, 500, 30, "a name within a namespace"),
        Sub("refused", st.tuples(trees(scalars, 2), st.lists(names, max_size=2), st.sampled_from(["a.b", ".", "a.", ".a", "a", "a b", "\u00b7"])), check_refused, 300, 10, "refused"),
        Sub("objects", st.tuples(trees(scalars | lists, 1), st.permutations(["one", "two", "three", "four"]), st.sampled_from(["shared", "own", "unify"])), check_objects, 400, 20, "not empty"),
        Sub("kinds", st.tuples(trees(), mapping_kinds, st.just(()) | st.just(("p", "q"))), check_kinds, 500, 20, "a namespace, and another kind"),
        Sub("large", st.tuples(st.lists(st.tuples(st.integers(0, 60).map(lambda i: "k%d" % i) | st.sampled_from(["B", "a", "10", "9"]), st.sampled_from(["ns", "ns", "empty", "int", "list", "text", "false"])), min_size=5, max_size=50),
                               st.integers(0, 9) | st.sampled_from([30, 60]), st.just(()) | st.just(("p", "q"))), check_large, 200, 15, "more than 16 names"),
        Sub("not_mapping", st.sampled_from([[], [("a", 1)], "a", 1, None, ()]), check_not_mapping, 8, 1, "all"),
        Sub("empty", st.lists(names, max_size=3).map(tuple), check_empty, 60, 2, "with a prefix"),
    ],
    assumptions=["no parameter has the value None", "values which are mutable lists are shared with the mapping they come from"],
)
