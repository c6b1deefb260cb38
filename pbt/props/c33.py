"""C33 Logging configuration: the root level is what the parameters ask for."""
import contextlib
import io
import logging
import logging.config
import os
import sys

from hypothesis import strategies as st

from core import Prop, Sub, raises, require, same
from vistautils.logging_utils import configure_logging_from
from vistautils.parameters import ParameterError, Parameters

LEVELS = {
    "CRITICAL": 50, "FATAL": 50, "ERROR": 40, "WARNING": 30, "WARN": 30, "INFO": 20, "DEBUG": 10,
}


@contextlib.contextmanager
def clean_logging():
    """A root logger without handlers; everything is put back afterwards."""
    root = logging.getLogger()
    disabled = logging.root.manager.disable
    saved = (root.level, list(root.handlers), sys.stdout)
    states = {n: (l.level, l.disabled, l.propagate, list(l.handlers)) for n, l in logging.root.manager.loggerDict.items() if isinstance(l, logging.Logger)}
    out = io.StringIO()
    err = io.StringIO()
    try:
        logging.disable(logging.NOTSET)
        root.handlers[:] = []
        root.setLevel(logging.WARNING)
        sys.stdout = out
        keep_err, sys.stderr = sys.stderr, err
        yield root, out, err
    finally:
        sys.stdout = saved[2]
        sys.stderr = keep_err
        root.setLevel(saved[0])
        root.handlers[:] = saved[1]
        for n, l in list(logging.root.manager.loggerDict.items()):
            if isinstance(l, logging.Logger):
                if n in states:
                    l.setLevel(states[n][0])
                    l.disabled, l.propagate = states[n][1:3]
                    l.handlers[:] = states[n][3]
                else:
                    l.disabled = False
                    l.setLevel(logging.NOTSET)
        logging.disable(disabled)


def emit(messages):
    for i, (name, level) in enumerate(messages):
        logging.getLogger(name).log(level, "message %d", i)


def check_level(case, ctx):
    level, messages, other, log_params, present = case
    params = dict(other)
    if level is not None:
        params["logging"] = {"root_level": level}
    p = Parameters.from_mapping(params)
    with clean_logging() as (root, out, err):
        if level is not None and level not in LEVELS:
            ctx.mark(label="invalid")
            e = raises(ParameterError, lambda: configure_logging_from(p), "configuring the level %r" % (level,))
            require(isinstance(level, str) and level in str(e) or not isinstance(level, str), "the message does not name the level", str(e))
            return
        want = LEVELS["INFO" if level is None else level]
        ctx.mark(label="default" if level is None else level)
        # what is configured already does not matter, but for the levels of other loggers
        own = 0
        if present == "own level":
            own = [logging.DEBUG, logging.ERROR, logging.WARNING][len(messages) % 3]

        def threshold(name):
            return max(want, own) if present == "disabled" or name.split(".")[0] == "vistautils" else want

        own_out = io.StringIO()
        own_handler = logging.StreamHandler(own_out)
        own_handler.setFormatter(logging.Formatter("%(message)s"))
        if present == "null":
            root.addHandler(logging.NullHandler())
        elif present == "stream":
            root.addHandler(own_handler)
        elif present == "level":
            root.setLevel(logging.CRITICAL if want < 50 else logging.DEBUG)
        elif present in LEVELS:
            root.setLevel(LEVELS[present])
        elif present == "not set":
            root.setLevel(logging.NOTSET)
        elif present == "file":
            root.addHandler(logging.FileHandler(os.path.join(ctx.tmp(), "own.log"), mode="a"))
        elif present == "disabled":
            # the program has put all up to a level off
            logging.disable(logging.INFO)
            own = logging.INFO + 1
        elif present == "own level":
            logging.getLogger("vistautils").setLevel(own)
        configure_logging_from(p, log_params=log_params)
        for h in root.handlers:
            if isinstance(h, logging.FileHandler):
                h.close()
        same(root.level, want, "level of the root logger for %r" % (level,))
        same(root.manager.disable, logging.INFO if present == "disabled" else logging.NOTSET, "what the program has disabled")
        params_logged = out.getvalue()
        if log_params and threshold("vistautils") <= 20:
            for k in other:
                require(k in params_logged and str(other[k]) in params_logged, "the parameters were not logged", params_logged)
            require(str(p) in params_logged, "the parameters were not logged as a whole", params_logged, str(p))
        else:
            same(params_logged, "", "output of configuring itself")
        emit(messages)
        text = out.getvalue()[len(params_logged):]
        lines = text.splitlines()
        shown = [(i, m) for i, m in enumerate(messages) if m[1] >= threshold(m[0])]
        same(len(lines), len(shown), "number of lines logged at %r" % (level,))
        for line, (i, (name, lev)) in zip(lines, shown):
            require(
                line.endswith("%s:%s:message %d" % (logging.getLevelName(lev), name, i)),
                "a logged line",
                line,
            )
        same(err.getvalue(), "", "standard error")
        if present == "stream":
            # handlers of the program's own go on
            require(own_out.getvalue().endswith("".join("message %d\n" % i for i, _ in shown)), "messages of a handler which was there before", own_out.getvalue())


def check_file(case, ctx):
    level, root_level, messages = case
    path = os.path.join(ctx.tmp(), "log.conf")
    log_file = os.path.join(ctx.tmp(), "out.log")
    with open(path, "w") as f:
        f.write(
            "[loggers]\nkeys=root\n[handlers]\nkeys=h\n[formatters]\nkeys=f\n"
            "[logger_root]\nlevel=%s\nhandlers=h\n"
            "[handler_h]\nclass=FileHandler\nlevel=NOTSET\nformatter=f\nargs=(%r, 'w')\n"
            "[formatter_f]\nformat=%%(name)s|%%(message)s\n" % (level, log_file)
        )
    params = {"logging": {"config_file": path}}
    if root_level is not None:
        # the file wins
        params["logging"]["root_level"] = root_level
    ctx.mark(root_level is not None or bool(messages))
    with clean_logging() as (root, out, err):
        configure_logging_from(Parameters.from_mapping(params))
        same(root.level, LEVELS[level], "root level by configuration file")
        # (other loggers which exist already are disabled by a configuration file)
        emit([("root", l) for _, l in messages])
        for h in list(root.handlers):
            h.close()
        same(out.getvalue(), "", "standard output")
    with open(log_file) as f:
        got = f.read().splitlines()
    want = ["root|message %d" % i for i, (n, l) in enumerate(messages) if l >= LEVELS[level]]
    same(got, want, "lines in the log file")


def check_missing(case, ctx):
    ctx.mark()
    with clean_logging():
        raises(ParameterError, lambda: configure_logging_from(Parameters.from_mapping({"logging": {"config_file": ctx.tmp() + "/" + case}})), "missing configuration file")


messages = st.lists(st.tuples(st.sampled_from(["a", "a.b", "x", "vistautils", "vistautils.key_value", "vistautils.scripts.split_key_value_store", "__main__", "asyncio.x", "urllib3", "py.warnings", "A"]), st.sampled_from([5, 10, 15, 20, 30, 40, 50])), max_size=6).map(tuple)
levels = st.sampled_from(sorted(LEVELS))

PROP = Prop(
    "C33",
    [
        Sub("level", st.tuples(st.none() | levels | levels | st.sampled_from(["TRACE", "info", "Debug", " INFO", "NOTSET", "WARNINGS", "", "15", "10", "0", "50", 10, 15, True, "Level 20", "INFO,DEBUG"]), messages,
                               st.dictionaries(st.sampled_from(["k1", "k2"]), st.integers(0, 3) | st.sampled_from(["100% sure", "%s", "%d %(x)s", "{}", "v" * 3000]), max_size=2), st.booleans(),
                               st.sampled_from([None, None, "null", "stream", "level", "file", "DEBUG", "INFO", "CRITICAL", "not set", "disabled", "own level", "own level"])),
            check_level, 800, 10, "all"),
        Sub("file", st.tuples(levels, st.none() | levels, messages), check_file, 300, 10, "messages, or both ways to configure"),
        Sub("missing", st.sampled_from(["nothing", "no.conf"]), check_missing, 4, 1, "all"),
    ],
    assumptions=["the root logger has no handler to standard output before"],
)
