"""Entry point of every check:  run.py <property id> [--replay FILE] [--sub NAME] [--scale X]

Environment: VERIF_SEED (int), VERIF_TIER (quick|thorough), VERIF_REPO (default /repo).
Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. Exit 2: harness trouble.
"""
import sys

REPO = __import__("os").environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
# after everything else, so that the repository's own environment wins
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import argparse  # noqa
import importlib  # noqa
import json  # noqa
import locale  # noqa
import logging  # noqa
import multiprocessing  # noqa
import os  # noqa
import shutil  # noqa
import signal  # noqa
import subprocess  # noqa
import time  # noqa
import traceback  # noqa
import warnings  # noqa
from collections import Counter  # noqa

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(1, HERE)

warnings.simplefilter("ignore")
import hypothesis  # noqa
import hypothesis.configuration  # noqa
import core  # noqa
import known  # noqa

# Text files are UTF-8 whatever the locale: from here on, a file opened without an encoding is ASCII.
# (Names of files, and the standard streams, stay as they are.)
locale.setlocale(locale.LC_CTYPE, "C")


def load_prop(pid):
    import vistautils.range as probe  # a module every version has

    real = os.path.realpath(probe.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit2("vistautils was imported from %s, not from %s" % (real, REPO))
    return importlib.import_module("props." + pid.lower()).PROP


class SystemExit2(Exception):
    pass


def _child(conn, pid, sub_index, seed, n):
    # the child reports on the pipe; its own output is of no interest
    try:
        core.limit_memory()
        os.setpgid(0, 0)
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 0)
        os.dup2(devnull, 1)
        if not os.environ.get("VERIF_DEBUG"):
            os.dup2(devnull, 2)
        core.make_scratch_root()
        # anything that uses the default temporary directory stays in our scratch
        import tempfile

        os.environ["TMPDIR"] = core.SCRATCH_ROOT
        tempfile.tempdir = core.SCRATCH_ROOT
        os.chdir(core.SCRATCH_ROOT)
        core.install_guard()
        sub = PROP.subs[sub_index]
        t0 = time.monotonic()
        res = core.run_sub(sub, seed, n)
        res["wall"] = time.monotonic() - t0
        os.chdir("/")
        shutil.rmtree(core.SCRATCH_ROOT, ignore_errors=True)
        conn.send(res)
    except BaseException as e:  # noqa
        try:
            conn.send({"error": "child: %r\n%s" % (e, traceback.format_exc()), "sub": None})
        except Exception:  # noqa
            pass
    finally:
        conn.close()
        os._exit(0)


# the quick tier runs each sub-check this many times, with different seeds
QUICK_SHARDS = 4


def run_jobs(pid, jobs, limit_s, workers, stop_on_failure=True):
    """jobs: list of (sub_index, seed, n). Returns list of results."""
    ctx = multiprocessing.get_context("fork")
    pending = list(jobs)
    running = {}
    results = []
    deadline = time.monotonic() + limit_s
    stop = False
    while pending or running:
        while pending and len(running) < workers and not stop:
            job = pending.pop(0)
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(w, pid) + job)
            p.start()
            w.close()
            running[r] = (p, job)
        if not running:
            break
        ready = multiprocessing.connection.wait(list(running), timeout=1.0)
        for r in ready:
            p, job = running.pop(r)
            try:
                res = r.recv()
            except EOFError:
                res = {"error": "worker for %s died" % (job,), "sub": None}
            res["job"] = job
            results.append(res)
            p.join()
            r.close()
            if res.get("failure") and stop_on_failure:
                stop = True
        if stop:
            # let the others go: one violation is enough
            for r, (p, job) in running.items():
                _kill(p)
            running = {}
            break
        if time.monotonic() > deadline:
            for r, (p, job) in running.items():
                _kill(p)
                results.append(
                    {"error": "time limit reached in %s" % (job,), "sub": None, "job": job}
                )
            for job in pending:
                results.append({"error": "time limit reached before %s" % (job,), "job": job})
            break
    return results


def _kill(p):
    # the worker's own process group (so that anything it started goes too) and its scratch
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (OSError, ProcessLookupError):
        try:
            p.kill()
        except Exception:  # noqa
            pass
    p.join()


def write_replay(pid, sub, failure, seed, n):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, sub.name))
    with open(path, "w", encoding="utf-8") as out:
        json.dump(
            {
                "property": pid,
                "sub": sub.name,
                "kind": failure["kind"],
                "case": failure["case"],
                "message": failure["msg"],
                "seed": seed,
                "n": n,
            },
            out,
            indent=1,
        )
        out.write("\n")
    return path


def replay_case(sub, case_text):
    core.make_scratch_root()
    import tempfile

    os.environ["TMPDIR"] = core.SCRATCH_ROOT
    tempfile.tempdir = core.SCRATCH_ROOT
    core.install_guard()
    cwd = os.getcwd()
    os.chdir(core.SCRATCH_ROOT)
    try:
        return core.run_case(sub, core.load_case(case_text))[1]
    finally:
        os.chdir(cwd)
        shutil.rmtree(core.SCRATCH_ROOT, ignore_errors=True)


def _fresh_replay(pid, path):
    """Replay in a fresh interpreter; True when it still fails."""
    p = subprocess.run(
        [sys.executable, os.path.abspath(__file__), pid, "--replay", path],
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        timeout=300,
    )
    return p.returncode == 1


def do_replay(pid, path):
    with open(path, encoding="utf-8") as f:
        rep = json.load(f)
    sub = [s for s in PROP.subs if s.name == rep["sub"]][0]
    if rep["kind"] == "case":
        msg = replay_case(sub, rep["case"])
    else:
        res = run_jobs(pid, [(PROP.subs.index(sub), rep["seed"], rep["n"])], 600, 1)[0]
        msg = res["failure"]["msg"] if res.get("failure") else None
    if msg is None:
        print("replay passes: %s" % path)
        return 0
    print("replay fails: %s" % msg)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--sub", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    pid = args.property
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.monotonic()
    logging.disable(logging.CRITICAL)
    core.patch_hypothesis()
    global PROP
    try:
        PROP = load_prop(pid)
    except SystemExit2:
        raise
    except Exception as e:
        # the repository cannot even be imported: no answer
        traceback.print_exc()
        print("ERROR property=%s cannot load: %r" % (pid, e))
        return 2
    if args.replay:
        return do_replay(pid, args.replay)

    # a scratch root that is removed even if a worker was killed
    scratch_parent = core.make_scratch_root()
    import tempfile

    orig_mkdtemp_dir = scratch_parent
    # Hypothesis caches its character tables here: before the workers are forked
    hypothesis.configuration.set_hypothesis_home_dir(os.path.join(scratch_parent, "hyp"))
    from hypothesis.internal import charmap

    charmap.charmap()

    def make_sub_root():
        core.SCRATCH_ROOT = tempfile.mkdtemp(prefix="w_", dir=orig_mkdtemp_dir)
        return core.SCRATCH_ROOT

    keep_make = core.make_scratch_root
    core.make_scratch_root = make_sub_root
    try:
        subs = PROP.subs
        jobs = []
        for i, s in enumerate(subs):
            if args.sub and s.name not in args.sub:
                continue
            if tier == "quick":
                n = max(1, int(s.quick * args.scale))
                for sh in range(QUICK_SHARDS if s.quick >= 50 else 1):
                    jobs.append((i, core.derive_seed(seed, pid, s.name, sh), n))
            else:
                total = max(1, int(s.quick * s.thorough * args.scale))
                per = max(1, total // s.shards)
                for sh in range(s.shards):
                    jobs.append((i, core.derive_seed(seed, pid, s.name, "t", sh), per))
        # biggest first; thorough: interleave the shards
        if tier == "thorough":
            jobs.sort(key=lambda j: (jobs.index(j) % 8))
        workers = min(8, os.cpu_count() or 1)
        limit = 840 if tier == "quick" else 6 * 3600
        results = run_jobs(pid, jobs, limit, workers)
    finally:
        core.make_scratch_root = keep_make
        shutil.rmtree(scratch_parent, ignore_errors=True)

    failures = [r for r in results if r.get("failure")]
    errors = [r for r in results if r.get("error")]
    exit_code = 0
    violations = 0
    lines = []
    for r in failures:
        sub = PROP.subs[r["job"][0]]
        f = r["failure"]
        path = write_replay(pid, sub, f, r["job"][1], r["job"][2])
        confirmed = _fresh_replay(pid, path)
        if not confirmed:
            # not a function of the case alone: the history of the run matters; replay the run
            f = dict(f, kind="run")
            path = write_replay(pid, sub, f, r["job"][1], r["job"][2])
            confirmed = _fresh_replay(pid, path)
        if confirmed:
            violations += 1
            lines.append("%s/%s: %s" % (pid, sub.name, f["msg"]))
            lines.append("  case: %s" % f["case"][:2000])
            lines.append("VIOLATION property=%s replay=%s" % (pid, path))
            exit_code = 1
        else:
            errors.append({"error": "unreproducible failure in %s: %s" % (sub.name, f["msg"])})
    # known findings: probed on every run, listed in the committed file
    listed = known.load(os.path.join(VERIF, "KNOWN_FINDINGS.txt"))
    for fid, probe, what in PROP.findings:
        entry = listed.get((pid, fid))
        try:
            with core._Watchdog():
                still = probe()
        except Exception as e:  # noqa
            errors.append({"error": "probe %s: %r\n%s" % (fid, e, traceback.format_exc())})
            continue
        if entry and still:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, entry))
        elif still and not entry:
            errors.append({"error": "probe %s fails but is not listed" % fid})

    cov = {
        "evaluations": sum(r.get("evaluations", 0) for r in results),
        "distinct_nontrivial": 0,
        "rule": "; ".join("%s: %s" % (s.name, s.rule) for s in PROP.subs),
        "samples": [],
        "per_subcheck": {},
    }
    by_sub = {}
    for r in results:
        if r.get("sub"):
            by_sub.setdefault(r["sub"], []).append(r)
    for name, rs in by_sub.items():
        nt = set().union(*[r["nontrivial"] for r in rs])
        labels = Counter()
        for r in rs:
            labels.update(r["labels"])
        ev = sum(r["evaluations"] for r in rs)
        cov["distinct_nontrivial"] += len(nt)
        cov["per_subcheck"][name] = {
            "evaluations": ev,
            "distinct_nontrivial": len(nt),
            "labels": dict(sorted(labels.items())),
            "cpu_s": round(sum(r.get("wall", 0) for r in rs), 2),
        }
        samples = [s for r in rs for s in r["samples"]]
        # the later ones are larger
        cov["samples"].extend("%s: %s" % (name, s) for s in samples[-3:])
    if not cov["samples"]:
        cov["samples"] = ["(no case was completed)"]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": PROP.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": violations,
    }
    if not args.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.json.tmp" % pid)
        with open(tmp, "w", encoding="utf-8") as out:
            json.dump(evidence, out, indent=1, ensure_ascii=True)
            out.write("\n")
        os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % pid))
    if args.verbose:
        for name, d in cov["per_subcheck"].items():
            print(name, json.dumps(d))
    for l in lines:
        print(l.encode("utf-8", "backslashreplace").decode())
    if exit_code == 0 and errors:
        for e in errors:
            print("ERROR property=%s %s" % (pid, e["error"]))
        exit_code = 2
    if exit_code == 0:
        print(
            "OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs"
            % (pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], evidence["wall_s"])
        )
    return exit_code


if __name__ == "__main__":
    import multiprocessing.connection  # noqa

    try:
        code = main()
    except SystemExit2 as e:
        print("ERROR %s" % e)
        code = 2
    sys.stdout.flush()
    os._exit(code)
