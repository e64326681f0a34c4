#!/usr/bin/env python3
"""Mutation campaign (development aid): small syntactic changes to the code of /repo, those that pass the existing tests are given to the checks.

mutate.py OUT.jsonl WORKERS PER_FILE SEED [file-substring ...]
mutate.py OUT.jsonl WORKERS again SURVIVORS.jsonl: those that survived an earlier campaign"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import queue

PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/mut"
MAP = {"envs/common/abstract.py": "C01 C02 C13 C09 C10 C08 C22 C23 C21 C31",
       "envs/common/action.py": "C13 C22 C01 C04",
       "envs/common/observation.py": "C05 C06 C07 C04 C21 C23",
       "envs/common/finite_mdp.py": "C07 C24",
       "envs/highway_env.py": "C27 C03 C02 C31", "envs/intersection_env.py": "C19 C03 C02 C18 C31",
       "envs/merge_env.py": "C31 C27 C03 C02", "envs/roundabout_env.py": "C31 C27 C03 C02", "envs/parking_env.py": "C31 C27 C03 C02 C21",
       "envs/summon_env.py": "C31 C27 C03 C02 C21", "envs/two_way_env.py": "C31 C27 C03 C02", "envs/lane_keeping_env.py": "C31 C20 C27 C03 C02",
       "road/regulation.py": "C18 C19", "road/road.py": "C14 C15 C17 C05 C11 C29 C27 C16", "road/lane.py": "C15 C17 C13 C27",
       "road/objects.py": "C11 C27 C05", "vehicle/kinematics.py": "C12 C11 C27 C05 C16 C06 C29", "vehicle/controller.py": "C13 C14 C29 C16 C28",
       "vehicle/behavior.py": "C16 C17 C19 C25 C30 C26", "vehicle/dynamics.py": "C12 C20 C22", "utils.py": "C15 C11 C03 C22 C16 C05 C18 C25 C30",
       "envs/common/graphics.py": "C23", "road/graphics.py": "C23", "vehicle/graphics.py": "C23",
       "interval.py": "C25 C26", "vehicle/uncertainty": "C26 C30 C25"}
SKIPF = {"__repr__", "__str__"}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.lines = src, [], src.splitlines(keepends=True)
        self.starts = [0]
        for l in self.lines:
            self.starts.append(self.starts[-1] + len(l.encode()))
        self.bytes = src.encode()

    def pos(self, node):
        return (self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset)

    def text(self, node):
        a, b = self.pos(node)
        return self.bytes[a:b].decode()

    def sub(self, node, new, what):
        a, b = self.pos(node)
        self.out.append((node.lineno, a, b, new, what))

    def visit_FunctionDef(self, node):
        if node.name in SKIPF:
            return
        for st in node.args.defaults:
            self.visit(st)
        for st in node.body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str):
                continue
            self.visit(st)

    def visit_Import(self, node):
        pass
    visit_ImportFrom = visit_Import

    def visit_ClassDef(self, node):
        if node.name.startswith(("Grayscale", "Lidar")) and False:
            return
        for st in node.body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            self.visit(st)

    def visit_AnnAssign(self, node):
        if node.value is not None:
            self.visit(node.value)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            alt = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
                   ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}[type(node.ops[0])]
            for a in alt:
                self.sub(node, "(%s %s %s)" % (self.text(node.left), a, self.text(node.comparators[0])), "compare " + a)
        self.generic_visit(node)

    def visit_BinOp(self, node):
        alt = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*"}.get(type(node.op))
        if alt and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            self.sub(node, "(%s %s %s)" % (self.text(node.left), alt, self.text(node.right)), "op " + alt)
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        alt = "or" if isinstance(node.op, ast.And) else "and"
        self.sub(node, "(" + (" %s " % alt).join("(%s)" % self.text(v) for v in node.values) + ")", "bool " + alt)
        for k in range(len(node.values)):
            rest = [self.text(v) for i, v in enumerate(node.values) if i != k]
            self.sub(node, "(" + (" and " if alt == "or" else " or ").join("(%s)" % r for r in rest) + ")", "drop operand %d" % k)
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, (ast.Not, ast.USub)):
            self.sub(node, "(%s)" % self.text(node.operand), "drop " + ("not" if isinstance(node.op, ast.Not) else "-"))
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, bool):
            self.sub(node, str(not v), "flip")
        elif isinstance(v, int):
            self.sub(node, str(v + 1), "const +1")
            if v > 0:
                self.sub(node, str(v - 1), "const -1")
        elif isinstance(v, float):
            self.sub(node, str(v * 1.1 if v else 0.1), "const *1.1")

    def visit_IfExp(self, node):
        self.sub(node, "(%s)" % self.text(node.body), "always body")
        self.sub(node, "(%s)" % self.text(node.orelse), "always else")
        self.generic_visit(node)

    def visit_If(self, node):
        self.sub(node.test, "(True)", "if True")
        self.sub(node.test, "(False)", "if False")
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call):
            self.sub(node, "pass", "drop call")
        self.generic_visit(node)

    def visit_Assign(self, node):
        if not isinstance(node.targets[0], ast.Name):
            self.sub(node, "pass", "drop assignment")
        self.visit(node.value)

    def visit_AugAssign(self, node):
        self.sub(node, "pass", "drop augmented assignment")
        self.visit(node.value)

    def visit_Call(self, node):
        for k in node.keywords:
            if k.arg and len(node.keywords) + len(node.args) > 1:
                pass
        if len(node.args) == 1 and not node.keywords and isinstance(node.func, (ast.Name, ast.Attribute)):
            f = self.text(node.func)
            if f in ("abs", "int", "float", "np.abs", "np.floor", "copy.deepcopy", "list", "max", "np.sign", "np.cos", "np.sin"):
                self.sub(node, "(%s)" % self.text(node.args[0]), "drop " + f)
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("cos", "sin") and len(node.args) == 1:
            self.sub(node, "np.%s(%s)" % ("sin" if node.func.attr == "cos" else "cos", self.text(node.args[0])), "swap trig")
        if isinstance(node.func, ast.Name) and node.func.id in ("min", "max", "any", "all") and node.args:
            new = {"min": "max", "max": "min", "any": "all", "all": "any"}[node.func.id]
            a, b = self.pos(node)
            self.out.append((node.lineno, a, b, new + self.text(node)[3:], "swap " + new))
        self.generic_visit(node)


def mutants(path):
    src = open(path).read()
    f = Finder(src)
    tree = ast.parse(src)
    for st in tree.body:
        if isinstance(st, (ast.ClassDef, ast.FunctionDef)):
            f.visit(st)
    return src, f.out


def main():
    again = {}
    if sys.argv[3] == "again":
        for r in map(json.loads, open(sys.argv[4])):
            if r["status"] == "survived":
                again.setdefault(r["file"], []).append(r)
        sys.argv[3:5] = ["100000", "0"]
    out, workers, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    only = sys.argv[5:]
    rng = random.Random(seed)
    done = set()
    if os.path.exists(out):
        done = {(r["file"], r["a"], r["b"], r["new"]) for r in map(json.loads, open(out))}
    jobs = []
    for key, checks in MAP.items():
        if only and not any(o in key for o in only):
            continue
        p = os.path.join("/repo/highway_env", key)
        files = [key] if os.path.isfile(p) else [os.path.join(key, n) for n in sorted(os.listdir(p)) if n.endswith(".py")]
        for f in files:
            src, ms = mutants(os.path.join("/repo/highway_env", f))
            rng.shuffle(ms)
            if again:           # the same changes, wherever they are now
                kept = []
                for r in again.get(f, []):
                    same = [m for m in ms if (m[3], m[4]) == (r["new"], r["what"]) and src.encode()[m[1]:m[2]].decode() == r["old"]]
                    if same:
                        kept.append(min(same, key=lambda m: abs(m[1] - r["a"])))
                ms = kept
            for m in ms[:per]:
                if (f, m[1], m[2], m[3]) not in done:
                    jobs.append((f, checks.split(), m))
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    lock = threading.Lock()

    def work(i):
        repo, verif = "%s/w%d" % (BASE, i), "%s/v%d" % (BASE, i)
        for d in (repo, verif):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(BASE, exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", "__pycache__"))
        env = dict(os.environ, PYTHONPATH=repo, SDL_VIDEODRIVER="dummy", SDL_AUDIODRIVER="dummy", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1",
                   OMP_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
        while True:
            try:
                f, checks, (line, a, b, new, what) = q.get_nowait()
            except queue.Empty:
                return
            p = os.path.join(repo, "highway_env", f)
            orig = open(p, "rb").read()
            try:
                mutated = orig[:a] + new.encode() + orig[b:]
                try:
                    ast.parse(mutated.decode())
                except SyntaxError:
                    continue
                open(p, "wb").write(mutated)
                r = {"file": f, "line": line, "a": a, "b": b, "old": orig[a:b].decode(), "new": new, "what": what, "checks": {}}
                try:
                    t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--ignore=tests/envs/test_time.py", "tests"],
                                       cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120).returncode
                except subprocess.TimeoutExpired:
                    t = 99
                if t != 0:
                    r["status"] = "tests"
                else:
                    r["status"] = "survived"
                    for c in checks:
                        if not os.path.exists(os.path.join(verif, "harness", "checks", c.lower() + ".py")):
                            continue
                        try:
                            x = subprocess.run([PY, "check.py", c], cwd=verif, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                            rc, txt = x.returncode, x.stdout.decode(errors="replace")
                        except subprocess.TimeoutExpired:
                            rc, txt = 99, ""
                        r["checks"][c] = rc
                        if rc == 1 and "VIOLATION property=" + c in txt:
                            r["status"] = "caught"
                            r["by"] = c
                            break
                        if rc != 0:
                            r["machinery"] = txt[-800:]
            finally:
                open(p, "wb").write(orig)
            with lock:
                with open(out, "a") as g:
                    g.write(json.dumps(r) + "\n")

    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
