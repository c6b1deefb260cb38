"""Mutation campaign: which small changes that pass the tests do the checks miss?

usage: mutate.py OUT.jsonl [--files a.py,b.py] [--workers N] [--scale X] [--every K --offset O]

Works on scratch copies of /repo under /tmp/mut and a copy of /verif under /tmp/mut/verif; changes
neither. Results: one line per mutant: file, line, before, after, outcome
(tests | caught:<id> | missed | error).
"""
import argparse
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

PY = "/opt/venv/bin/python"
BASE = "/tmp/mut"


def is_doc(node, parents):
    p = parents.get(node)
    return isinstance(p, ast.Expr)


class Collector:
    """All mutations of a module as functions from a fresh tree to a mutated one."""

    def __init__(self, src):
        self.src = src
        self.tree = ast.parse(src)
        self.nodes = list(ast.walk(self.tree))
        self.parents = {}
        for n in self.nodes:
            for c in ast.iter_child_nodes(n):
                self.parents[c] = n
        self.index = {id(n): i for i, n in enumerate(self.nodes)}
        self.out = []

    def in_annotation(self, node):
        cur = node
        while cur in self.parents:
            p = self.parents[cur]
            if isinstance(p, ast.AnnAssign) and p.annotation is cur:
                return True
            if isinstance(p, ast.arg):
                return True
            if isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef)) and p.returns is cur:
                return True
            if isinstance(p, (ast.Import, ast.ImportFrom)):
                return True
            cur = p
        return False

    def in_message(self, node):
        cur = node
        while cur in self.parents:
            cur = self.parents[cur]
            if isinstance(cur, (ast.Raise, ast.JoinedStr, ast.Assert)):
                return True
            if isinstance(cur, ast.Call):
                f = cur.func
                name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
                if name in ("info", "warning", "debug", "error", "check_arg", "check_state", "TypeVar", "getLogger", "append_error"):
                    return True
            if isinstance(cur, ast.stmt):
                return False
        return False

    def add(self, node, desc, fn):
        stmt = node
        while not isinstance(stmt, ast.stmt) and stmt in self.parents:
            stmt = self.parents[stmt]
        self.out.append((self.index[id(node)], getattr(node, "lineno", 0), desc, fn))

    def collect(self):
        for n in self.nodes:
            if self.in_annotation(n):
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                swaps = {
                    ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
                    ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
                    ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is],
                }
                for new in swaps.get(type(n.ops[0]), []):
                    self.add(n, "cmp->" + new.__name__, lambda m, new=new: setattr(m, "ops", [new()]))
            if isinstance(n, ast.BoolOp):
                self.add(n, "and/or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
                for i in range(len(n.values)):
                    self.add(n, "drop operand %d" % i, lambda m, i=i: m.values.__delitem__(i) if len(m.values) > 2 else setattr(m, "values", [m.values[1 - i]] * 2))
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                t = n.test
                if isinstance(n, ast.If) and isinstance(t, ast.Name) and t.id == "TYPE_CHECKING":
                    continue
                self.add(n, "test negated", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
                if not isinstance(n, ast.While):
                    self.add(n, "test True", lambda m: setattr(m, "test", ast.Constant(True)))
                self.add(n, "test False", lambda m: setattr(m, "test", ast.Constant(False)))
            if isinstance(n, ast.comprehension) and n.ifs:
                self.add(n, "drop comprehension if", lambda m: setattr(m, "ifs", []))
            if isinstance(n, ast.Constant) and not is_doc(n, self.parents):
                v = n.value
                if isinstance(v, bool):
                    self.add(n, "not " + str(v), lambda m: setattr(m, "value", not m.value))
                elif isinstance(v, int):
                    self.add(n, "%d+1" % v, lambda m: setattr(m, "value", m.value + 1))
                    self.add(n, "%d-1" % v, lambda m: setattr(m, "value", m.value - 1))
                elif isinstance(v, str) and v and not self.in_message(n):
                    self.add(n, "str %r" % v[:20], lambda m: setattr(m, "value", m.value + "X"))
                    if len(v) > 1:
                        self.add(n, "str cut %r" % v[:20], lambda m: setattr(m, "value", m.value[:-1]))
            if isinstance(n, ast.BinOp):
                if isinstance(n.op, ast.Add):
                    self.add(n, "+ -> -", lambda m: setattr(m, "op", ast.Sub()))
                elif isinstance(n.op, ast.Sub):
                    self.add(n, "- -> +", lambda m: setattr(m, "op", ast.Add()))
                elif isinstance(n.op, (ast.Mult, ast.FloorDiv, ast.Div, ast.Mod)) and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
                    self.add(n, "op -> +", lambda m: setattr(m, "op", ast.Add()))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                self.add(n, "drop not", "REPLACE_OPERAND")
            if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                self.add(n, "return None", lambda m: setattr(m, "value", ast.Constant(None)))
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break)):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    continue
                p = self.parents[n]
                if isinstance(p, ast.Module):
                    continue
                self.add(n, "statement -> pass", "PASS")
                if isinstance(n, ast.Break):
                    self.add(n, "break -> continue", "CONTINUE")
                if isinstance(n, ast.Continue):
                    self.add(n, "continue -> break", "BREAK")
            if isinstance(n, ast.Call):
                for i, k in enumerate(n.keywords):
                    if k.arg:
                        self.add(n, "drop keyword " + k.arg, lambda m, i=i: m.keywords.__delitem__(i))
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    self.add(n, "swap arguments", lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
                    self.add(n, "drop last argument", lambda m: m.args.pop())
                f = n.func
                name = f.id if isinstance(f, ast.Name) else None
                if name in ("sorted", "tuple", "list", "set", "immutableset", "immutabledict", "reversed", "str", "deepcopy", "dict", "iter", "len", "abs", "frozenset", "enumerate") and len(n.args) == 1:
                    self.add(n, "%s(x) -> x" % name, "REPLACE_ARG")
                if name in ("min", "max"):
                    self.add(n, "min/max", lambda m: setattr(m.func, "id", "max" if m.func.id == "min" else "min"))
                if name in ("bisect_left", "bisect_right"):
                    self.add(n, "bisect", lambda m: setattr(m.func, "id", "bisect_right"))
                if name in ("all", "any"):
                    self.add(n, "all/any", lambda m: setattr(m.func, "id", "any" if m.func.id == "all" else "all"))
                if isinstance(f, ast.Attribute):
                    if f.attr in ("strip", "lower", "upper", "rstrip", "lstrip", "resolve", "absolute", "copy", "items", "keys", "expanduser"):
                        self.add(n, ".%s() dropped" % f.attr, "REPLACE_RECEIVER")
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                if n.slice.lower is not None:
                    self.add(n, "slice lower dropped", lambda m: setattr(m.slice, "lower", None))
                if n.slice.upper is not None:
                    self.add(n, "slice upper dropped", lambda m: setattr(m.slice, "upper", None))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                pairs = {
                    "start": "end", "end": "start", "lower_endpoint": "upper_endpoint", "upper_endpoint": "lower_endpoint",
                    "_lower_bound": "_upper_bound", "_upper_bound": "_lower_bound", "contains_span": "overlaps", "overlaps": "contains_span",
                    "encloses": "is_connected", "is_connected": "encloses", "has_lower_bound": "has_upper_bound", "has_upper_bound": "has_lower_bound",
                    "contains_offset": "overlaps", "append": "extend", "exists": "is_file", "is_file": "exists", "is_dir": "exists",
                    "left": "right", "right": "left", "OPEN": "CLOSED", "CLOSED": "OPEN",
                }
                if n.attr in pairs:
                    self.add(n, ".%s -> .%s" % (n.attr, pairs[n.attr]), lambda m, a=pairs[n.attr]: setattr(m, "attr", a))
            if isinstance(n, ast.ExceptHandler) and n.type is not None:
                self.add(n, "except other", lambda m: setattr(m, "type", ast.Name("ZeroDivisionError", ast.Load())))
            if isinstance(n, ast.With):
                pass
        return self.out

    def apply(self, mutation):
        idx, lineno, desc, fn = mutation
        tree = ast.parse(self.src)
        nodes = list(ast.walk(tree))
        m = nodes[idx]
        parents = {}
        for n in nodes:
            for c in ast.iter_child_nodes(n):
                parents[c] = n
        stmt = m
        while not isinstance(stmt, ast.stmt) and stmt in parents:
            stmt = parents[stmt]

        def head(s):
            if isinstance(s, (ast.If, ast.While)):
                return ("if " if isinstance(s, ast.If) else "while ") + ast.unparse(s.test)
            return ast.unparse(s).splitlines()[0][:200] if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s.name

        before = head(stmt)

        def replace(old, new):
            ast.copy_location(new, old)
            p = parents[old]
            for field, value in ast.iter_fields(p):
                if value is old:
                    setattr(p, field, new)
                elif isinstance(value, list):
                    for i, x in enumerate(value):
                        if x is old:
                            value[i] = new

        if fn == "PASS":
            replace(m, ast.Pass())
            after = "pass"
        elif fn == "CONTINUE":
            replace(m, ast.Continue()); after = "continue"
        elif fn == "BREAK":
            replace(m, ast.Break()); after = "break"
        elif fn == "REPLACE_OPERAND":
            replace(m, m.operand); after = None
        elif fn == "REPLACE_ARG":
            replace(m, m.args[0]); after = None
        elif fn == "REPLACE_RECEIVER":
            replace(m, m.func.value); after = None
        else:
            fn(m)
            after = None
        ast.fix_missing_locations(tree)
        text = ast.unparse(tree)
        if after is None:
            after = head(stmt)
        return text, getattr(stmt, "lineno", lineno), before, after


def main():
    global BASE
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--scale", default="1")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--base", default=BASE)
    ap.add_argument("--retry", help="a former OUT: only the mutants missed there")
    args = ap.parse_args()
    BASE = args.base
    props = [json.loads(l) for l in open("/verif/properties.jsonl")]
    by_file = {}
    for p in props:
        for f in p["anchors"]["files"]:
            by_file.setdefault(f, []).append(p["id"])
    shutil.rmtree(BASE, ignore_errors=True)
    os.makedirs(BASE)
    stable = json.load(open("/opt/vp/BASELINE.json"))
    free = Queue()
    for i in range(args.workers):
        d = "%s/w%d" % (BASE, i)
        subprocess.check_call(["cp", "-a", "/repo", d])
        shutil.copytree("/verif", d + "v", ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
        free.put(d)
    work = []
    files = args.files.split(",") if args.files else sorted(f for f in by_file if f.endswith(".py"))
    wanted = None
    if args.retry:
        wanted = {(r["file"], r["line"], r["op"], r["before"], r["after"]) for r in map(json.loads, open(args.retry)) if r["outcome"] == "missed"}
        files = sorted({w[0] for w in wanted})
    k = 0
    for f in files:
        c = Collector(open("/repo/" + f).read())
        base = ast.unparse(c.tree)
        seen = {base}
        for mut in c.collect():
            k += 1
            if k % args.every != args.offset:
                continue
            try:
                text, line, before, after = c.apply(mut)
                compile(text, f, "exec")
            except Exception:  # noqa
                continue
            if text in seen:
                continue
            seen.add(text)
            if wanted is not None and (f, line, mut[2], before, after) not in wanted:
                continue
            work.append((f, line, mut[2], before, after, text))
    print(len(work), "mutants", flush=True)
    out = open(args.out, "a")
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", VERIF_SEED="1", VERIF_TIER="quick", VERIF_CASE_TIMEOUT="20")

    def one(item):
        f, line, op, before, after, text = item
        d = free.get()
        res = {"file": f, "line": line, "op": op, "before": before, "after": after}
        path = os.path.join(d, f)
        try:
            with open(path, "w") as o:
                o.write(text)
            try:
                p = subprocess.run(
                    [PY, "-m", "pytest", "tests", "-q", "-x", "--tb=no", "-p", "no:cacheprovider", "--basetemp=" + d + "/.tmp_tests"] + DESELECT,
                    cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
                ok = p.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            if not ok:
                res["outcome"] = "tests"
                return res
            errs = []
            for pid in by_file[f]:
                try:
                    p = subprocess.run([d + "v/check", pid, "--no-evidence", "--scale", args.scale], env=dict(env, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                except subprocess.TimeoutExpired:
                    errs.append(pid + ":timeout")
                    continue
                if p.returncode == 1:
                    res["outcome"] = "caught:" + pid
                    res["msg"] = p.stdout.decode("utf-8", "replace")[-900:]
                    return res
                if p.returncode != 0:
                    errs.append(pid + ":" + p.stdout.decode("utf-8", "replace")[-300:])
            res["outcome"] = "missed"
            if errs:
                res["errors"] = errs
            return res
        except Exception as e:  # noqa
            res["outcome"] = "error %r" % e
            return res
        finally:
            shutil.copy("/repo/" + f, path)
            free.put(d)

    counts = {}
    with ThreadPoolExecutor(args.workers) as ex:
        for r in ex.map(one, work):
            k = r["outcome"].split(":")[0]
            counts[k] = counts.get(k, 0) + 1
            out.write(json.dumps(r) + "\n")
            out.flush()
    print(counts)


DESELECT = []
if __name__ == "__main__":
    main()
