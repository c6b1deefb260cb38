"""C18 Entry points: the main method runs once, with the file's parameters and the user's overrides."""
import contextlib
import copy
import io
import logging
import os
import sys

from hypothesis import strategies as st

from core import Prop, Sub, fail, raises, require, same
from props.c14 import dump
from props.c33 import LEVELS, clean_logging
from props.paramgen import make, same_tree, trees
from vistautils.parameters import ParameterError, Parameters
from vistautils.parameters_only_entrypoint import parameters_only_entry_point


class Conflict(Exception):
    pass


class Own(Exception):
    pass


class OwnBase(BaseException):
    pass


ERRORS = {"own": Own, "base": OwnBase, "interrupt": KeyboardInterrupt, "system": OSError, "parameter": ParameterError, "stop": StopIteration, "assert": AssertionError, "exit": SystemExit, "exit 0": lambda m: SystemExit(0), "exit 2": lambda m: SystemExit(2), "generator": GeneratorExit}
ERRORS.update({"raised %d" % i: e for i, e in enumerate([
    RecursionError, MemoryError, NotImplementedError, RuntimeError, TypeError, ValueError, KeyError, IndexError, AttributeError, NameError, ImportError, EOFError, BrokenPipeError, FileNotFoundError,
    PermissionError, TimeoutError, ConnectionError, ZeroDivisionError, OverflowError, BufferError, Warning, DeprecationWarning, UserWarning, Exception, BaseException, StopAsyncIteration, UnicodeError, SyntaxError])})

USAGE = {"plain": "does things", "percent": "does things to 10 % of %name% and %s", "braces": "does things {0} {x} {", "lines": "does things\n\nand others", "blank": "does things ",
         "backslash": "does things \\1 \\d", "long": "does things " * 40, "dollar": "does things $HOME $x ${", "dash": "does things --param-file -p"}


def of_pairs(pairs):
    """The overrides as a tree; None when they contradict each other (which is left open)."""
    out = {}
    for k, v in pairs:
        parts = k.split(".")
        d = out
        for part in parts[:-1]:
            d = d.setdefault(part, {})
            if not isinstance(d, dict):
                return None
        if isinstance(d.get(parts[-1]), dict):
            return None
        d[parts[-1]] = v
    return out


def merge(a, b):
    out = dict(a)
    for k, w in b.items():
        if k in out:
            if isinstance(out[k], dict) != isinstance(w, dict):
                raise Conflict(k)
            out[k] = merge(out[k], w) if isinstance(w, dict) else w
        else:
            out[k] = w
    return out


@contextlib.contextmanager
def arguments(args, program="prog"):
    saved, err, out = sys.argv, sys.stderr, sys.stdout
    sys.argv = [program] + list(args)
    sys.stderr = io.StringIO()
    try:
        yield sys.stderr
    finally:
        sys.argv, sys.stderr, sys.stdout = saved, err, out


def check(case, ctx):
    tree, pairs, level, empty, explicit, position, usage, program, fault, own_error, layout, file_name = case
    tree = copy.deepcopy(tree)
    if level is not None:
        tree["logging"] = {"root_level": level}
    overrides = of_pairs(pairs)
    if overrides is None:
        ctx.label("contradictory overrides")
        return
    args = []
    for k, v in pairs:
        args += ["-p", k, v]
    path = os.path.join(ctx.tmp(), file_name)
    if os.sep in file_name:
        os.mkdir(os.path.dirname(path))
        layout = "plain"
    with open(path, "w", encoding="utf-8") as f:
        f.write(dump(dict(tree, joined="%base%/x%part.two%", base="B", part={"two": "2"}, own="%VERIF_C18%", own_too="<%VERIF_C18%>")))
    # a program beside which there are files of the same names
    os.mkdir(os.path.join(ctx.tmp(), "program"))
    for decoy in (os.path.join("program", os.path.basename(file_name)), os.path.join("program", "inc.yaml")):
        with open(os.path.join(ctx.tmp(), decoy), "w", encoding="utf-8") as f:
            f.write("decoy: true\nfrom_include: decoy\n")
    included = {}
    if layout != "plain" and not explicit:
        # the file includes another one beside it; as a link, beside the link
        os.mkdir(os.path.join(ctx.tmp(), "elsewhere"))
        with open(path, "r+", encoding="utf-8") as f:
            text = f.read()
            f.seek(0)
            f.write("_includes: [inc.yaml]\n" + text)
        with open(os.path.join(ctx.tmp(), "inc.yaml"), "w") as f:
            f.write("from_include: right\nbase: overridden\n")
        if layout == "link":
            os.rename(path, os.path.join(ctx.tmp(), "elsewhere", "real.yaml"))
            os.symlink(os.path.join("elsewhere", "real.yaml"), path)
            with open(os.path.join(ctx.tmp(), "elsewhere", "inc.yaml"), "w") as f:
                f.write("from_include: wrong\n")
        included = {"from_include": "right"}
    full = dict(tree, **included)
    full = dict(full, joined="B/x2", base="B", part={"two": "2"}, own="e v", own_too="<e v>")
    os.environ["VERIF_C18"] = "e v"
    if explicit:
        full = dict(tree, joined="%base%", base="B")
        if empty:
            full = {}
    # an argument which is not an override: the file
    if not explicit:
        at = 3 * min(position, len(pairs))
        # (a relative path, which is what programs are mostly given)
        args[at:at] = [file_name]
    want_exit, want_error = False, False
    if fault == "missing file" and not explicit:
        os.remove(path)
        want_error = True
    elif fault == "no file" and not explicit:
        args.remove(file_name)
        want_exit = True
    elif fault == "second file":
        args.append(path)
        want_exit = True
    elif fault == "half an override":
        args += ["-p", "a"]
        want_exit = True
    elif fault == "unknown option":
        args.append("--nosuch")
        want_exit = True
    elif fault == "not yaml" and not explicit:
        with open(path, "w") as f:
            f.write("a: [1\nb: {")
        want_error = True
    elif fault == "help":
        args.insert(0, "-h")
    try:
        want = merge(full, overrides)
    except Conflict:
        want_error = True
        want = None
    calls = []
    own_exception = ERRORS[own_error]("the main method fails") if own_error else None
    with clean_logging() as (root, out, err), arguments(args, os.path.join(ctx.tmp(), "program", "prog.py")) as usage_out:
        sys.stdout = out
        if len(tree) % 3 == 1:
            # the program has a handler of its own
            ctx.label("own handler")
            root.addHandler(logging.NullHandler())
        given = make(full) if explicit else None
        if explicit and usage:
            # parameters which are a namespace of others
            given = make({"outer": {"inner": full}}).namespace("outer.inner")

        def main(params):
            calls.append((params, root.level, out.getvalue()))
            logging.getLogger("own").critical("from main")
            if own_error:
                raise own_exception
            return 17

        def run():
            here = os.getcwd()
            os.chdir(ctx.tmp())
            try:
                return entry()
            finally:
                os.chdir(here)

        def entry():
            kwargs = {}
            if explicit:
                kwargs["parameters"] = given
            if program:
                kwargs["program_name"] = "myprogram"
            if usage:
                return parameters_only_entry_point(main, USAGE[usage], **kwargs)
            return parameters_only_entry_point(main, **kwargs)

        wanted_level = None
        if want is not None:
            logging_params = want.get("logging")
            wanted_level = "INFO"
            if isinstance(logging_params, dict) and "root_level" in logging_params:
                wanted_level = logging_params["root_level"]
            if wanted_level not in LEVELS:
                want_error = True
        if want_exit:
            ctx.mark(label="usage error")
            try:
                run()
                fail("bad arguments were accepted: %s", args)
            except SystemExit as e:
                require(e.code not in (0, None), "exit code of bad arguments", e.code)
            require("usage" in usage_out.getvalue(), "no usage message", usage_out.getvalue())
            require(not program or "myprogram" in usage_out.getvalue(), "the program is not named", usage_out.getvalue())
            same(len(calls), 0, "calls of the main method after bad arguments")
        elif fault == "help":
            ctx.mark(label="help")
            try:
                run()
                fail("the main method was run although help was asked for: %s", args)
            except SystemExit as e:
                require(e.code in (0, None), "exit code after help", e.code)
            # (argparse wraps the lines)
            shown = " ".join((out.getvalue() + usage_out.getvalue()).split())
            require("usage" in shown, "no usage in the help", shown)
            require(not usage or "does things" in shown, "the message is not in the help", shown)
            require(not program or "myprogram" in shown, "the program is not named in the help", shown)
            same(len(calls), 0, "calls of the main method when help is asked for")
        elif want_error:
            ctx.mark(label="refused")
            raises(Exception, run, "parameters which cannot be loaded, unified or used")
            same(len(calls), 0, "calls of the main method with bad parameters")
        else:
            ctx.mark(bool(pairs), "overrides")
            ctx.label("explicit" if explicit else "file", "level %s" % wanted_level)
            if own_error:
                ctx.label("failing main method")
                try:
                    run()
                    fail("the failure of the main method (%r) was lost", own_exception)
                except type(own_exception) as e:  # pylint:disable=broad-except
                    require(e is own_exception, "what the main method raised", e, own_exception)
            else:
                require(run() is None, "result of the entry point")
            same(len(calls), 1, "calls of the main method")
            params, at_level, text = calls[0]
            require(isinstance(params, Parameters), "argument of the main method", params)
            same_tree(params, want, "parameters of the main method")
            if explicit and not pairs:
                require(params == given, "explicit parameters", params, given)
                same(params.namespace_prefix, given.namespace_prefix, "namespace of explicit parameters")
            same(at_level, LEVELS[wanted_level], "root level when the main method runs")
            # the parameters are logged before, when the level admits
            if LEVELS[wanted_level] <= logging.INFO:
                require(all(k in text for k in want) and "Ran with parameters" in text, "the parameters are not logged", text)
            else:
                same(text, "", "output before the main method")
            require("CRITICAL:own:from main" in out.getvalue(), "the main method's logging", out.getvalue())
        if explicit:
            same_tree(given, full, "the explicit parameters afterwards")


leaf = st.integers(-2, 2) | st.sampled_from([True, 1.5, "x", "", [1, "y"], []])
name = st.sampled_from(["a", "b", "c", "N", "key-1"])
keys = st.lists(name, min_size=1, max_size=3).map(".".join)
pair = st.tuples(keys | keys | st.sampled_from(["logging.root_level"]),
                 st.sampled_from(["1", "x", "", " ", "null", "[1, 2]", "%base%", "-5", "two words", "a.b", "\u00e9", "WARNING", "DEBUG", "info", "warn", "=", "true"]))
TREES = trees(leaf, 2, 0, 4, name)
plain_faults = st.sampled_from([None] * 12 + ["missing file", "no file", "second file", "half an override", "unknown option", "not yaml", "help"])
random_pairs = st.lists(pair, max_size=4).map(tuple)


@st.composite
def cases(draw):
    tree = draw(TREES)
    pairs = list(draw(random_pairs))
    # overrides of what is there
    leaves = []

    def walk(t, prefix):
        for k, v in t.items():
            if isinstance(v, dict):
                walk(v, prefix + (k,))
            else:
                leaves.append(".".join(prefix + (k,)))

    walk(tree, ())
    if leaves:
        pairs = [p for p in pairs if draw(st.booleans())]
        for k in draw(st.lists(st.sampled_from(leaves), max_size=3)):
            pairs.append((k, draw(st.sampled_from(["1", "x", "over", "-5", "", " x ", "~"]))))
    return (
        tree,
        tuple(pairs),
        draw(st.sampled_from([None, None, "INFO", "DEBUG", "WARNING", "ERROR", "CRITICAL", "nonsense"])),
        draw(st.sampled_from([False, False, True])),
        draw(st.booleans()),
        draw(st.integers(0, 4)),
        draw(st.sampled_from([None, None] + sorted(USAGE))),
        draw(st.booleans()),
        draw(plain_faults),
        draw(st.sampled_from([None] * 10 + sorted(ERRORS))),
        draw(st.sampled_from(["plain", "plain", "include", "link"])),
        draw(st.sampled_from(["my params.yaml"] * 4 + ["~", "~/p.yaml", "$HOME", "@p", "%s.yml", "a=b", "{x}", "dir/p", "*.yaml", " p "])),
    )


def check_many(case, ctx):
    """Tens of overrides."""
    case, n, dotted = case
    more = tuple(("many%d" % i + (".n%d" % (i % 3) if dotted else ""), str(i)) for i in range(n))
    check((case[0], case[1] + more) + case[2:], ctx)


def check_program_name(case, ctx):
    """Without a program name the running script is named."""
    import __main__ as main_module

    ctx.mark()
    with clean_logging(), arguments(["--nosuch"]) as usage_out:
        try:
            parameters_only_entry_point(lambda p: None)
        except SystemExit:
            pass
        name = os.path.basename(main_module.__file__)
        require(name in usage_out.getvalue(), "the script is not named", usage_out.getvalue(), name)


PROP = Prop(
    "C18",
    [
        Sub("entry", cases(), check, quick=900, thorough=30, rule="overrides are given, or the run must be refused"),
        Sub("many", st.tuples(cases(), st.integers(5, 80), st.booleans()), check_many, quick=60, thorough=20, rule="overrides are given, or the run must be refused"),
        Sub("name", st.just(0), check_program_name, quick=1, thorough=1, rule="all", shards=1),
    ],
    assumptions=[
        "overrides which contradict each other (a name as parameter and as namespace) are left open",
        "values beginning with a dash other than negative numbers are taken for options by argparse",
        "whether an override changes what other parameters interpolate is left open",
    ],
)
