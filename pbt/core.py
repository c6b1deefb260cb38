"""Engine shared by every check: drives one property's sub-checks with Hypothesis.

A *sub-check* is a Hypothesis strategy producing a plain-literal case, plus a function that
builds whatever it needs from the case, runs the real code and compares with an oracle.  The
engine counts and classifies the cases, shrinks failures, confirms them outside Hypothesis and
writes the replay file.
"""
import ast
import datetime
import decimal
import errno
import hashlib
import math
import pathlib
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from collections import Counter

import hypothesis
from hypothesis import HealthCheck, Phase, Verbosity, given, settings
from hypothesis.errors import Flaky

CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "60"))
SHRINK_SECONDS = 45
MEM_LIMIT = 3 << 30


class Violation(Exception):
    """The property is broken on this case."""


class Hang(Exception):
    """A case did not terminate within CASE_TIMEOUT."""


class Infra(KeyboardInterrupt):
    """Trouble of the machine or the harness, never of the code under test."""


class HarnessError(BaseException):
    pass


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def _short(x, limit=400):
    try:
        r = repr(x)
    except Exception as e:  # noqa
        r = "<unprintable %s: %s>" % (type(x).__name__, e)
    return r if len(r) <= limit else r[:limit] + "...(%d chars)" % len(r)


def require(cond, msg, *vals):
    if not cond:
        raise Violation(msg + "".join(" | " + _short(v) for v in vals))


def same(actual, expected, what):
    """actual == expected, written so that the message shows both."""
    if not (actual == expected):
        raise Violation("%s: got %s, expected %s" % (what, _short(actual), _short(expected)))


def same_typed(actual, expected, what):
    same(actual, expected, what)
    if type(actual) is not type(expected):
        raise Violation(
            "%s: got a %s, expected a %s (%s)"
            % (what, type(actual).__name__, type(expected).__name__, _short(actual))
        )


def raises(excs, fn, what):
    """fn() must raise one of excs; anything else is a violation. Returns the exception."""
    try:
        ret = fn()
    except Hang:
        raise
    except excs as e:
        return e
    except (MemoryError, Infra):
        raise
    except (Exception, SystemExit) as e:
        raise Violation(
            "%s: raised %s(%s), expected %s" % (what, type(e).__name__, _short(str(e)), excs)
        )
    raise Violation("%s: returned %s, expected %s to be raised" % (what, _short(ret), excs))


class Ctx:
    """What a sub-check's function gets beside its case."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self._tmp = None
        self._cleanup = []

    def label(self, *names):
        self.labels.update(names)

    def mark(self, cond=True, label=None):
        """Record that the case is non-trivial (by the sub-check's stated rule)."""
        if cond:
            self.nontrivial = True
            if label:
                self.labels.add(label)

    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="vtc_", dir=SCRATCH_ROOT)
        return self._tmp

    def defer(self, fn):
        self._cleanup.append(fn)

    def close(self):
        for fn in reversed(self._cleanup):
            try:
                fn()
            except Exception:  # noqa
                pass
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)


SCRATCH_ROOT = None


def make_scratch_root():
    """One scratch directory per run; every file any case touches is below it."""
    global SCRATCH_ROOT
    base = None
    if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK):
        base = "/dev/shm"
    SCRATCH_ROOT = tempfile.mkdtemp(prefix="vista_pbt_", dir=base)
    return SCRATCH_ROOT


class Sub:
    """One sub-check.

    name: unique within the property
    strategy: Hypothesis strategy of literal cases
    fn(case, ctx): the oracle
    quick: number of cases in the quick tier; thorough: multiplier for the thorough tier
    rule: what makes a case non-trivial
    """

    def __init__(self, name, strategy, fn, quick=400, thorough=40, rule="", examples=(), shards=8):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.examples = tuple(examples)
        self.shards = shards


class Prop:
    def __init__(self, pid, subs, assumptions=(), findings=()):
        self.pid = pid
        self.subs = list(subs)
        self.assumptions = list(assumptions)
        # probes of known findings: list of (finding id, function -> True when it still fails)
        self.findings = list(findings)
        names = [s.name for s in self.subs]
        assert len(set(names)) == len(names), names


_LITERAL_ENV = {"inf": math.inf, "nan": math.nan, "__builtins__": {}}


def dump_case(case):
    return repr(case)


def load_case(text):
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        # only adds a few constructors, inf and nan to literals
        env = dict(
            _LITERAL_ENV, set=set, frozenset=frozenset, range=range, datetime=datetime,
            Decimal=decimal.Decimal, PurePosixPath=pathlib.PurePosixPath,
        )
        return eval(text, env)  # pylint:disable=eval-used


def _alarm(signum, frame):
    raise Hang("case did not finish within %d s" % CASE_TIMEOUT)


class _Watchdog:
    """Raises Hang in the main thread if a case loops for CASE_TIMEOUT seconds.

    An interval timer is used so that code that swallows the exception is interrupted again.
    """

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT, 5)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def _is_infra(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, (MemoryError, Infra)):
            return True
        if isinstance(e, OSError) and e.errno in (
            errno.ENOSPC,
            errno.EMFILE,
            errno.ENFILE,
            errno.ENOMEM,
            errno.EDQUOT,
            errno.EIO,
        ):
            return True
        e = e.__cause__ or e.__context__
    return False


# ---- containment: while a case runs, nothing outside the scratch directory can be changed ----

_GUARD = {"installed": False, "on": False, "escapes": []}
_ONE_PATH = {"os.remove": 1, "os.rmdir": 1, "os.mkdir": 2, "os.truncate": None, "os.chmod": 2,
             "os.chown": 3, "os.utime": 3, "shutil.rmtree": 1, "os.mkfifo": None, "os.mknod": None,
             "os.setxattr": None, "os.removexattr": None}
_TWO_PATHS = {"os.rename": (2, 3), "os.link": (2, 3), "os.symlink": (None, 2),
              "shutil.copyfile": (None, None), "shutil.move": (None, None)}
_NEVER = {"os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty",
          "subprocess.Popen", "os.kill", "os.killpg", "socket.connect"}
_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _inside(path, dir_fd=None):
    if isinstance(path, int):
        return True
    try:
        path = os.fsdecode(path)
    except (TypeError, ValueError):
        return True
    if not os.path.isabs(path) and isinstance(dir_fd, int) and dir_fd >= 0:
        try:
            path = os.path.join(os.readlink("/proc/self/fd/%d" % dir_fd), path)
        except OSError:
            return False
    parent, name = os.path.split(os.path.abspath(path))
    real = os.path.join(os.path.realpath(parent), name)
    root = os.path.realpath(SCRATCH_ROOT)
    return real.startswith(root + os.sep) or path == os.devnull


def _audit(event, args):
    if not _GUARD["on"]:
        return
    bad = False
    if event == "open":
        flags = args[2]
        if isinstance(flags, int) and flags & _WRITE_FLAGS:
            bad = not _inside(os.path.realpath(args[0]) if isinstance(args[0], (str, bytes)) else args[0])
    elif event in _ONE_PATH:
        i = _ONE_PATH[event]
        bad = not _inside(args[0], args[i] if i is not None and len(args) > i else None)
    elif event in _TWO_PATHS:
        fds = _TWO_PATHS[event]
        first = 1 if event in ("os.symlink", "shutil.copyfile", "os.link") else 0
        bad = any(
            not _inside(args[i], args[fds[i]] if fds[i] is not None and len(args) > fds[i] else None)
            for i in range(first, 2)
        )
    elif event in _NEVER:
        bad = True
    if bad:
        _GUARD["escapes"].append("%s %s" % (event, _short(args, 200)))
        raise PermissionError("the check refuses %s %s" % (event, _short(args, 200)))


def install_guard():
    if not _GUARD["installed"]:
        _GUARD["installed"] = True
        sys.addaudithook(_audit)


_CHILD = """
import sys
sys.dont_write_bytecode = True
sys.path[:0] = %r
import logging
logging.disable(logging.CRITICAL)
import core
core.SCRATCH_ROOT = %r
core.install_guard()
core._GUARD["on"] = True
%s
core._GUARD["on"] = False
if core._GUARD["escapes"]:
    sys.exit("escaped: " + core._GUARD["escapes"][0])
"""


def run_python(code, *, hash_seed, options=()):
    """Run code in a fresh interpreter, contained like a case. Returns its standard output."""
    was, _GUARD["on"] = _GUARD["on"], False
    try:
        paths = [p for p in sys.path if p]
        p = subprocess.run(
            [sys.executable, *options, "-c", _CHILD % (paths, SCRATCH_ROOT, code)],
            env=dict(os.environ, PYTHONHASHSEED=str(hash_seed)),
            stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            timeout=CASE_TIMEOUT,
            cwd=SCRATCH_ROOT,
        )
    finally:
        _GUARD["on"] = was
    if p.returncode != 0:
        raise Violation(
            "a fresh interpreter failed: %s" % _short(p.stderr.decode("utf-8", "replace")[-1500:], 1600)
        )
    return p.stdout.decode("utf-8")


def run_program(module, args):
    """Run a module as the program it is, with arguments, contained like a case."""
    return run_python(
        "import runpy\nsys.argv = ['prog'] + %r\nrunpy.run_module(%r, run_name='__main__', alter_sys=True)" % (list(args), module), hash_seed=0)


def run_case(sub, case):
    """Run one case outside Hypothesis, contained. Returns (ctx, message or None, hang)."""
    _GUARD["escapes"] = []
    ctx, msg, hang = _run_case(sub, case)
    if _GUARD["escapes"]:
        msg = "tried to change something outside the files it was given: %s%s" % (
            "; ".join(_GUARD["escapes"][:3]),
            " | " + msg if msg else "",
        )
    return ctx, msg, hang


def _run_case(sub, case):
    ctx = Ctx()
    # the code under test must not depend on the state of the global generator, but reset it
    # so that a replay is a pure function of the case
    random.seed(0)
    try:
        with _Watchdog():
            _GUARD["on"] = _GUARD["installed"]
            try:
                sub.fn(case, ctx)
            finally:
                _GUARD["on"] = False
        return ctx, None, False
    except Violation as e:
        return ctx, str(e), False
    except Hang as e:
        return ctx, "HANG: %s" % e, True
    except Infra:
        raise
    except hypothesis.errors.HypothesisException:
        raise
    except RecursionError as e:
        return ctx, "RecursionError: %s" % _short(str(e)), False
    except (Exception, SystemExit, GeneratorExit) as e:
        if _is_infra(e):
            raise Infra("infrastructure trouble: %r" % e)
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(
            "%s:%s:%d" % (os.path.basename(f.filename), f.name, f.lineno) for f in reversed(tb[-4:])
        )
        return (
            ctx,
            "unexpected %s: %s (at %s)" % (type(e).__name__, _short(str(e)), where),
            False,
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.close()


class _Failed(Exception):
    pass


def derive_seed(base, *parts):
    h = hashlib.sha256(("%d|" % base + "|".join(str(p) for p in parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass


def run_sub(sub, seed, n):
    """Generate and run n cases. Returns a plain dict of results."""
    res = {
        "sub": sub.name,
        "seed": seed,
        "n": n,
        "evaluations": 0,
        "labels": Counter(),
        "nontrivial": set(),
        "samples": [],
        "failure": None,
        "error": None,
    }
    state = {"last": None, "last_msg": None, "frozen": False, "generating": True}

    def record(case, ctx):
        res["evaluations"] += 1
        for l in ctx.labels:
            res["labels"][l] += 1
        if ctx.nontrivial:
            d = hashlib.sha1(dump_case(case).encode("utf-8", "surrogatepass")).hexdigest()[:16]
            if d not in res["nontrivial"]:
                res["nontrivial"].add(d)
                if len(res["samples"]) < 3 or res["evaluations"] in (50, 200, 1000):
                    res["samples"].append(dump_case(case)[:1200])

    def body(case):
        if state["frozen"]:
            # a hang is not shrunk: every further case passes
            return
        ctx, msg, hang = run_case(sub, case)
        if state["generating"]:
            record(case, ctx)
        if msg is not None:
            state["generating"] = False
            state["last"], state["last_msg"] = case, msg
            if hang:
                state["frozen"] = True
            raise _Failed(msg)

    try:
        for text in sub.examples:
            ctx, msg, _ = run_case(sub, text)
            record(text, ctx)
            if msg is not None:
                res["failure"] = {"case": dump_case(text), "msg": msg, "kind": "case"}
                return res
        test = given(sub.strategy)(body)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            verbosity=Verbosity.quiet,
            report_multiple_bugs=False,
            print_blob=False,
        )(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except _Failed:
            pass
        except Flaky:
            pass
        except BaseExceptionGroup as e:  # noqa
            if state["last"] is None:
                raise e
        if state["last_msg"] is not None:
            res["failure"] = {
                "case": dump_case(state["last"]),
                "msg": state["last_msg"],
                "kind": "case",
            }
    except Infra as e:
        res["error"] = "infra: %s" % e
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa
        if state["last_msg"] is not None:
            res["failure"] = {
                "case": dump_case(state["last"]),
                "msg": state["last_msg"],
                "kind": "case",
            }
        else:
            res["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())
    return res


def patch_hypothesis():
    import hypothesis.internal.conjecture.engine as engine

    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
