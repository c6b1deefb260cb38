"""C14 Interpolation of parameters: every %name% is replaced by the value of that parameter."""
import contextlib
import os
from pathlib import Path

import yaml
from hypothesis import strategies as st

from core import Prop, Sub, fail, raises, require, same
from props.paramgen import ABSENT, THROUGH_LEAF, exactly, make, resolve, same_tree
from vistautils.parameters import ParameterError, Parameters, YAMLParametersLoader

# ---------------------------------------------------------------- the reference interpreter


class Bad(Exception):
    """Loading must fail."""


class Unspecified(Exception):
    """Not documented either way."""


def scan(text):
    """Split a string into literal pieces and references (name,), left to right."""
    out, i, lit = [], 0, ""
    while i < len(text):
        if text[i] == "%":
            j = i + 1
            while j < len(text) and (text[j].isalnum() or text[j] in "_.-"):
                j += 1
            if j > i + 1 and j < len(text) and text[j] == "%":
                if lit:
                    out.append(lit)
                lit = ""
                out.append((text[i + 1 : j],))
                i = j + 1
                continue
        lit += text[i]
        i += 1
    if lit:
        out.append(lit)
    return out


def interpolate(tree, context, env):
    """The tree with all references replaced. context: a tree; env: plain strings or None."""
    done = {}
    active = set()

    def value(path):
        if path in done:
            return done[path]
        if path in active:
            raise Bad("cycle through " + path)
        active.add(path)
        raw = resolve(tree, path)
        if isinstance(raw, dict):
            ret = {k: value(path + "." + k) for k in raw}
        elif isinstance(raw, str):
            ret = string(raw)
        else:
            ret = raw
        active.discard(path)
        done[path] = ret
        return ret

    def look_up(name):
        found = resolve(tree, name)
        outside = resolve(context, name)
        if outside is ABSENT and "." not in name and env is not None and name in env and name not in context:
            outside = env[name]
        if found is THROUGH_LEAF:
            if outside not in (ABSENT, THROUGH_LEAF):
                raise Unspecified
            raise Bad("through a leaf " + name)
        if found is not ABSENT:
            ret = value(name)
            if ret is None:
                # a null of the context, taken over: as good as absent, or a value
                raise Unspecified
            return ret
        if outside in (ABSENT, THROUGH_LEAF):
            raise Bad("missing " + name)
        return outside

    def string(raw):
        pieces = scan(raw)
        if len(pieces) == 1 and isinstance(pieces[0], tuple):
            return look_up(pieces[0][0])
        out = ""
        for p in pieces:
            if isinstance(p, tuple):
                v = look_up(p[0])
                if not isinstance(v, str):
                    raise Bad("not a string: " + p[0])
                out += v
            else:
                out += p
        return out

    return {k: value(k) for k in tree}


def merge(a, b):
    out = dict(a)
    for k, w in b.items():
        if k in out:
            if w is None or out[k] is None:
                raise Unspecified
            if isinstance(out[k], dict) != isinstance(w, dict):
                raise Bad("conflict at " + k)
            out[k] = merge(out[k], w) if isinstance(w, dict) else w
        else:
            out[k] = w
    return out


@contextlib.contextmanager
def environment(values):
    saved = dict(os.environ)
    try:
        if "CROWD" in values:
            # before and after what is looked for
            values = dict({"CROWD_%d" % i: "x" for i in range(150)}, **values)
            values.update({"Z%d" % i: "y" for i in range(150)})
            os.environ.clear()
        os.environ.update(values)
        yield
    finally:
        os.environ.clear()
        os.environ.update(saved)


def dump(tree):
    return yaml.safe_dump(tree, sort_keys=False, default_flow_style=False, allow_unicode=True)


def backwards(t):
    return {k: backwards(v) if isinstance(v, dict) else v for k, v in reversed(list(t.items()))}


def check(case, ctx):
    tree, context, env, use_env, how = case
    loader = YAMLParametersLoader(interpolate_environmental_variables=use_env) if not use_env or how != "default" else YAMLParametersLoader()
    try:
        want = merge(context, interpolate(tree, context, env if use_env else None))
        outcome = "value"
    except Bad as e:
        want = str(e)
        outcome = want.split(" ")[0]
    except Unspecified:
        ctx.label("unspecified")
        return
    refs = any("%" in s for s in _strings(tree))
    ctx.label(outcome)
    ctx.mark(refs)
    given = make(context)

    def load(t):
        text = dump(t)
        with environment(env):
            if how == "file":
                path = Path(ctx.tmp()) / "p.params"
                path.write_text(text, encoding="utf-8")
                return loader.load(path, included_context=given) if context else loader.load(path)
            return loader.load_string(text, included_context=given) if context else loader.load_string(text)

    for t in (tree, backwards(tree)):
        if outcome == "value":
            got = load(t)
            same_tree(got, want, "interpolated")
        else:
            raises((IOError, ParameterError), lambda: load(t), "loading parameters which are wrong: " + want)
    same_tree(given, context, "the context afterwards")


def _strings(t):
    for v in t.values():
        if isinstance(v, dict):
            yield from _strings(v)
        elif isinstance(v, str):
            yield v


# ---------------------------------------------------------------- generators

TOP = ["a", "b", "c", "d", "e", "C_x", "N_q", "N_a"]
NS = ["N", "M"]
SUB = ["a", "x", "y"]
ENV = ["VISTA_A", "VISTA_B", "a", "b", "c", "N", "ctx_0", "ctx", "C"]


def refs(extra=()):
    local = [t for t in TOP] + [n + "." + s for n in NS for s in SUB] + NS
    ok = st.sampled_from(local)
    return ok | ok | st.sampled_from(["VISTA_A", "VISTA_B", "ctx", "ctx_0", "C.x", "C.x", "C.D.z", "C", "C_D_z", "C.D", "N.q", "nosuch", "N.nosuch", "a.x", "nosuch.x", "x-y", "\u00e9", "E-1", "9e", "_", "VISTA-A", "nul", "-h", "-", "0x-", "-2.-z"] + list(extra))


literals = st.sampled_from(["", " ", "\n", "\tx", "# ", ": ", "'", '"', "/", "hello ", "%", "%%", "100% ", "a", "% a %", "%a", "b%", "\\1", "\\g<0>", ".", "\u00e9"])
piece = refs().map(lambda r: "%" + r + "%") | literals.map(lambda x: x)
strings = st.lists(piece, min_size=1, max_size=3).map("".join) | refs().map(lambda r: "%" + r + "%")
plain = st.sampled_from([0, 1, False, True, "", "v", "w w", 1.5, 0.0, "%", "50 %", "x", "l\n", "\n", " l ", "l1\nl2\n\n"]) | st.sampled_from([[], ["%a%"], [1, "x"], ["%a%", "x"], ["%ctx%", "%VISTA_A%"], [["%b%"], 1], [{"q": "%a%", "%b%": ["%c%"]}], ["%%", "%a", "-%a%-"]])
plain_strings = st.sampled_from(["", "v", "w w", "x", "%", "a", "l\n", "\n", " l", "l ", "l1\nl2\n\n", "\tt", "1", "true", "'q'", "~", "-"])


@st.composite
def ordered(draw, cyclic=False):
    """Parameters which refer only to earlier ones (mostly), so that long chains succeed."""
    slots = draw(st.permutations(TOP + [n + "." + s for n in NS for s in SUB] + ["x-y", "N.D.z", "P.Q.R.s", "P.Q.t", "-h", "-", "0x-", "-2.-z"]))
    slots = slots[: draw(st.integers(1, len(slots)))]
    flat, stringy = {}, []
    for i, s in enumerate(slots):
        kind = draw(st.integers(0, 9))
        earlier = slots[:i]
        if kind <= 1 or not earlier:
            flat[s] = draw(plain_strings)
            stringy.append(s)
        elif kind == 2:
            flat[s] = draw(plain)
        elif kind == 3:
            flat[s] = "%" + draw(st.sampled_from(earlier + ["ctx", "ctx_0", "C.x", "N.q", "VISTA_A", "C"])) + "%"
        elif kind == 4:
            flat[s] = draw(strings)
        else:
            names = st.sampled_from(stringy + stringy + ["ctx", "VISTA_A", "E-1", "9e"])
            n = draw(st.integers(1, 3))
            flat[s] = "".join(draw(literals) + "%" + draw(names) + "%" for _ in range(n)) + draw(literals)
            stringy.append(s)
    if cyclic and len(slots) > 1:
        x, y = draw(st.sampled_from(slots)), draw(st.sampled_from(slots))
        flat[x] = "%" + y + "%" if draw(st.booleans()) else "-%" + y + "%-"
    tree = {}
    for s in draw(st.permutations(slots)):
        d = tree
        parts = s.split(".")
        for p in parts[:-1]:
            d = d.setdefault(p, {})
        d[parts[-1]] = flat[s]
    return tree


@st.composite
def alike(draw):
    """Parameters which all have the same few last names, in namespaces with the same few names."""
    slots = draw(st.permutations(["a", "b", "N.a", "N.b", "M.a", "M.b", "N.M.a", "N.M.b", "M.N.a", "N.N.a", "O.O.a"]))
    slots = slots[: draw(st.integers(3, len(slots)))]
    flat = {slots[0]: draw(plain_strings)}
    for i, s in enumerate(slots[1:], 1):
        names = st.sampled_from(slots[:i])
        flat[s] = draw(literals) + "-".join("%" + draw(names) + "%" for _ in range(draw(st.integers(1, 3))))
    tree = {}
    for s in draw(st.permutations(slots)):
        d = tree
        parts = s.split(".")
        for p in parts[:-1]:
            d = d.setdefault(p, {})
        d[parts[-1]] = flat[s]
    return tree


def wild():
    sub = st.dictionaries(st.sampled_from(SUB), strings | plain, max_size=3)
    return st.tuples(
        st.dictionaries(st.sampled_from(TOP + ["x-y"]), strings | plain, max_size=5),
        st.dictionaries(st.sampled_from(NS), sub | sub.map(lambda d: dict(d, D={"z": "%a%"})), max_size=2),
    ).map(lambda x: dict(x[0], **x[1]))


contexts = st.just({}) | st.fixed_dictionaries(
    {},
    optional={
        "ctx": st.sampled_from(["from context", "", "%a%"]),
        "ctx_0": st.sampled_from([0, False, 3, "s", [], ["x"]]),
        "a": st.sampled_from(["context a", 7, 0, "", False, []]),
        "b": st.sampled_from(["", 0, 0.0]),
        "VISTA_A": st.sampled_from(["context over environment", "", 0, False]),
        "nul": st.none(),
        "C": st.fixed_dictionaries({}, optional={"x": st.sampled_from(["cx", 0]), "D": st.just({"z": "deep"})}),
        "N": st.fixed_dictionaries({}, optional={"q": st.just("only in context"), "a": st.just("hidden?")}),
    },
)
full = st.fixed_dictionaries({
    "ctx": st.sampled_from(["from context", "", "%a%"]),
    "ctx_0": st.sampled_from([0, False, 3, "s", [], ["x"]]),
    "VISTA_A": st.sampled_from(["context over environment", ""]),
    "nul": st.none(),
    "C": st.fixed_dictionaries({"x": st.sampled_from(["cx", 0]), "D": st.just({"z": "deep"})}),
})
# values for names which the parameters may have themselves: never used then
hidden = st.dictionaries(st.sampled_from(TOP), st.sampled_from(["context value", 7, "%c%", ["y"]]), min_size=1, max_size=4).map(
    lambda d: dict(d, N={"a": "context N.a", "x": "context N.x"}, M={"a": "context M.a"})
)
contexts = contexts | full.map(lambda x: x) | full.map(lambda x: dict(x)) | hidden | st.tuples(full, hidden).map(lambda x: dict(x[0], **x[1]))
envs = st.sampled_from([{"VISTA_A": "$VISTA_B ${VISTA_B}", "VISTA_B": "b"}, {"VISTA_A": "$HOME/x", "VISTA_B": "~/x"}, {"VISTA_A": "\\g<0>\\1", "VISTA_B": " padded\t"}, {"VISTA_A": "1", "VISTA_B": "yes"}]) | st.sampled_from([{"VISTA_A": "env"}, {"VISTA_A": "", "VISTA_B": "%a%"}]) | st.dictionaries(st.sampled_from(ENV), st.sampled_from(["env value", "", "%a%", "x y"]), max_size=3) | st.sampled_from(
    [{"VISTA_A": "env value", "DOTTED.NAME": "x"}, {"VISTA.A": "dot"}, {"VISTA_A": "env value", "E-1": "minus", "9e": "digit", "_": "under", "VISTA-A": "dash"}]
)
envs = envs | envs.map(lambda e: dict(e, CROWD="1"))
hows = st.sampled_from(["string", "file", "default"])


def check_chain(case, ctx):
    """Long chains and many users of one parameter, in a random order of the text."""
    n, seed, shape, nest = case
    import random

    r = random.Random(seed)
    flat = {"p0": "s"}
    for i in range(1, n):
        j = i - 1 if shape == "chain" else 0 if shape == "star" else r.randrange(i)
        flat["p%d" % i] = "%%p%d%%" % j + ("" if shape == "same" else "+")
    if shape == "loop":
        flat["p0"] = "%%p%d%%" % (n - 1)
        for i in range(1, n):
            flat["p%d" % i] = "%%p%d%%" % (i - 1)
    order = list(flat)
    r.shuffle(order)
    tree = {k: flat[k] for k in order}
    if nest and shape in ("same", "star"):
        # others use the first, from within namespaces
        at = {"a": "%p0%", "b": {"c": "-%p0%-"}}
        for i in range(nest):
            at = {"n%d" % i: at, "q%d" % i: "%p0%"}
        tree = dict(tree, N=at) if seed % 2 else dict({"N": at}, **tree)
    ctx.mark(n > 2, shape)
    fn = lambda: YAMLParametersLoader().load_string(dump(tree))
    if shape == "loop":
        raises((IOError, ParameterError), fn, "a loop of %d parameters" % n)
        return
    want = {"p0": "s"}
    for i in range(1, n):
        ref = scan(flat["p%d" % i])[0][0]
        want["p%d" % i] = want[ref] + ("" if shape == "same" else "+")
    want = {k: want[k] for k in order}
    if "N" in tree:
        def filled(t):
            return {k: filled(v) if isinstance(v, dict) else v.replace("%p0%", "s") for k, v in t.items()}

        want = dict(want, N=filled(at)) if seed % 2 else dict({"N": filled(at)}, **want)
    same_tree(fn(), want, "interpolated")


PROP = Prop(
    "C14",
    [
        Sub("ordered", st.tuples(ordered(), contexts, envs, st.sampled_from([True, True, False]), hows), check, 1500, 60, "contains a %"),
        Sub("alike", st.tuples(alike(), contexts, envs, st.just(True), hows), check, 400, 40, "contains a %"),
        Sub("cyclic", st.tuples(ordered(True), contexts, envs, st.sampled_from([True, False]), hows), check, 700, 60, "contains a %"),
        Sub("wild", st.tuples(wild(), contexts, envs, st.sampled_from([True, True, False]), hows), check, 1500, 60, "contains a %"),
        Sub("shapes", st.tuples(st.integers(1, 60) | st.sampled_from([130, 257, 1100]), st.integers(0, 99), st.sampled_from(["chain", "star", "tree", "same", "loop"]), st.sampled_from([0, 0, 1, 3])), check_chain, 120, 10, "three or more"),
    ],
    assumptions=["no parameter is null", "a reference through a parameter which is no namespace is an error, or not judged when the context has the name"],
)
