"""Systematic small edits of a Python or JavaScript file, to find what the checks do not see (not part of any check).

python3 tools/mutants.py FILE CHECK,CHECK,... [--lines A-B] [--step K] [--offset O] [--jobs J]: prints the edits that the tests and all named checks accept."""
import argparse
import ast
import json
import os
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")


class Mutants(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.off = [0]
        for line in src.encode().splitlines(keepends=True):
            self.off.append(self.off[-1] + len(line))
        self.found = []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.src.encode()[a:b].decode()

    def put(self, n, new, what):
        a, b = self.span(n)
        self.found.append((n.lineno, a, b, new, what))

    def generic_visit(self, n):
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(n.test, ast.Constant):
            self.put(n.test, f"(not ({self.text(n.test)}))", "negate")
            if isinstance(n, ast.If):
                self.put(n.test, f"(False and ({self.text(n.test)}))", "never")
        if isinstance(n, ast.comprehension):
            for i in n.ifs:
                self.put(i, "True", "no filter")
        if isinstance(n, ast.BoolOp):
            for k, v in enumerate(n.values):
                rest = [self.text(x) for j, x in enumerate(n.values) if j != k]
                op = " and " if isinstance(n.op, ast.And) else " or "
                self.put(n, "(" + op.join(f"({x})" for x in rest) + ")", f"drop operand {k}")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            swap = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}.get(type(n.ops[0]))
            if swap:
                self.put(n, f"({self.text(n.left)} {swap} {self.text(n.comparators[0])})", "bound")
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            self.put(n, "pass", "drop statement")
        if isinstance(n, (ast.Continue, ast.Break)):
            self.put(n, "pass", "drop jump")
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                self.put(n, str(not n.value), "flip")
            elif isinstance(n.value, int):
                self.put(n, str(n.value + 1), "plus one")
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "reversed", "set") and len(n.args) == 1:
                self.put(n, f"({self.text(n.args[0])})", "unwrap " + n.func.id)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lower", "rstrip", "lstrip", "upper", "copy"):
                self.put(n, self.text(n.func.value), "unwrap ." + n.func.attr)
            if isinstance(n.func, (ast.Name, ast.Attribute)) and len(n.args) == 1 and not n.keywords and isinstance(n.args[0], (ast.Name, ast.Subscript, ast.Attribute)) and not (isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add", "extend", "get", "join", "split", "startswith", "endswith", "write", "pop")) and not (isinstance(n.func, ast.Name) and n.func.id in ("len", "isinstance", "sorted", "list", "set", "reversed", "str", "int", "type", "print")) :
                self.put(n, f"({self.text(n.args[0])})", "unwrap call")
            for k in n.keywords:
                pass
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            self.put(n, "return None", "return None")
        super().generic_visit(n)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--lines", default="1-99999")
    ap.add_argument("--step", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--count", action="store_true")
    ap.add_argument("--limit", type=int, default=300)
    a = ap.parse_args()
    with open(os.path.join(REPO, a.file)) as f:
        src = f.read()
    js = a.file.endswith(".js")
    if js:
        found = json.loads(subprocess.run(["node", V + "/tools/jsmut.js", os.path.join(REPO, a.file)], stdout=subprocess.PIPE, check=True).stdout)
    else:
        m = Mutants(src)
        m.visit(ast.parse(src))
        found = m.found
    lo, hi = map(int, a.lines.split("-"))
    todo = [x for x in sorted(found) if lo <= x[0] <= hi][a.offset::a.step]
    print(len(todo), "edits", flush=True)
    if a.count:
        return
    d = tempfile.mkdtemp(prefix="mutants", dir="/dev/shm")
    os.chmod(d, 0o755)  # C33 looks at it as another user
    dead = tests = alive = 0
    by = {}
    try:
        shutil.copytree(REPO, d + "/r", ignore=shutil.ignore_patterns(".git"), symlinks=True)
        p = f"{d}/r/{a.file}"
        order = a.checks.split(",")
        for line, s, e, new, what in todo:
            b = src.encode()
            out = b[:s] + new.encode() + b[e:]
            with open(p, "wb") as f:
                f.write(out)
            if js:
                if subprocess.run(["node", "--check", p], stderr=subprocess.DEVNULL).returncode:
                    continue
            else:
                try:
                    compile(out, "x", "exec")
                except SyntaxError:
                    continue
            t = subprocess.run("true; echo 0" if js else "PYTHONDONTWRITEBYTECODE=1 timeout 60 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider >/dev/null 2>&1; echo $?", shell=True, cwd=d + "/r", stdout=subprocess.PIPE, text=True)
            if t.stdout.strip() != "0":
                tests += 1
                continue
            killed = None
            for c in order:
                r = subprocess.run(["timeout", str(a.limit), "nice", "python3", f"{V}/checks/{c}.py"], env=dict(os.environ, VF_REPO=d + "/r", VF_STOP_AFTER="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    killed = c if r.returncode == 1 and "VIOLATION" in r.stdout else f"{c} rc{r.returncode}"
                    break
            old = b[s:e].decode()
            if killed:
                dead += 1
                by[killed] = by.get(killed, 0) + 1
                if " rc" in killed:
                    print(f"NOANSWER {killed} {a.file}:{line} {what}: {old[:80]!r}", flush=True)
            else:
                alive += 1
                print(f"ALIVE {a.file}:{line} {what}: {old[:100]!r}", flush=True)
    finally:
        shutil.rmtree(d)
    print(f"{a.file} {a.lines}: tests {tests}, checks {dead} {by}, alive {alive}", flush=True)


main()
