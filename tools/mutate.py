"""Mutation survey of the code under test (not a check): which small changes do the checks miss?

python tools/mutate.py list                      number of mutants per file
python tools/mutate.py run OUT [FILE-SUBSTRING] [--limit S] [--jobs N] [--shard I/N]
Each mutant is written into a scratch copy of conmech/, and the cases of the relevant checks run
against it (uncompiled) until one of them reports a violation or the time is used up.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo"
MAP = [
    ("mesh/zoo/", ["c04", "c01"]),
    ("mesh_description", ["c04", "c01"]),
    ("mesh/", ["c01", "c02", "c03", "c05", "c08"]),
    ("dynamics/factory", ["c05", "c14", "c15", "c06", "c03"]),
    ("dynamics/dynamics.py", ["c05", "c06", "c17", "c14", "c15", "c16"]),
    ("struct/", ["c05", "c10", "c09"]),
    ("statement", ["c09", "c11", "c14", "c15", "c16", "c17", "c18", "c10"]),
    ("contact/", ["c19", "c09", "c11", "c16"]),
    ("body_forces", ["c07", "c11", "c21"]),
    ("solvers/", ["c08", "c09", "c10", "c11", "c14", "c15", "c16", "c17", "c18", "c21"]),
    ("state/products", ["c20"]),
    ("state/state", ["c12", "c13", "c20", "c17", "c16"]),
    ("problem_solver", ["c08", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c21", "c20", "c06"]),
    ("problems.py", ["c05", "c09", "c11", "c14", "c15", "c16", "c17", "c18", "c07"]),
    ("body", ["c05", "c11", "c14", "c07"]),
    ("helpers/", ["c13", "c05", "c02"]),
    ("", ["c05", "c09", "c11"]),
]
CLASSES = [  # by the enclosing class or function
    ("find_solution_uzawa", ["c14", "c15"]),
    ("update_density", ["c06"]),
    ("PoissonSolver", ["c18"]),
    ("StaticPoisson", ["c18"]),
    ("QuasistaticRelaxation", ["c17", "c12", "c13"]),
    ("QuasistaticVelocityWithDisplacement", ["c17", "c11"]),
    ("StaticSolver", ["c09", "c10", "c08"]),
    ("StaticDisplacement", ["c09", "c10", "c05"]),
    ("TemperatureTimeDependentSolver", ["c14", "c12"]),
    ("TemperatureState", ["c14", "c12", "c13"]),
    ("Temperature", ["c14"]),
    ("PiezoelectricTimeDependentSolver", ["c15", "c12"]),
    ("PiezoelectricState", ["c15", "c12", "c13"]),
    ("Piezo", ["c15"]),
    ("WaveSolver", ["c16", "c12"]),
    ("Wave", ["c16"]),
    ("TimeDependentSolver", ["c11", "c12", "c08"]),
    ("QuasistaticVelocity", ["c11"]),
    ("DynamicVelocity", ["c11"]),
    ("TemperatureState", ["c14", "c12", "c13"]),
    ("PiezoelectricState", ["c15", "c12", "c13"]),
    ("get_slope_contact_law", ["c19"]),
]
BORING = ("self.to_do", "self.done", "print(", "verbose", "computation_time", "warnings", "fuse", "second_step_solver.current_time", "done +=")
SKIP = ("plot", "__init__", "scenarios/__init__", "helpers/cmh", "helpers/tmh")


def files():
    out = []
    for d, _, fs in os.walk(os.path.join(SRC, "conmech")):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), SRC)
            if f.endswith(".py") and not any(s in p for s in SKIP):
                out.append(p)
    return sorted(out)


class Collect(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(keepends=True)
        self.off = [0]
        for line in self.lines:
            self.off.append(self.off[-1] + len(line.encode()))
        self.raw = text.encode()
        self.out = []
        self.scope = []

    def span(self, n):
        return (
            self.off[n.lineno - 1] + n.col_offset,
            self.off[n.end_lineno - 1] + n.end_col_offset,
        )

    def src(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def put(self, n, new, what):
        a, b = self.span(n)
        if any(x in self.lines[n.lineno - 1] for x in BORING):
            return
        self.out.append((a, b, new, f"{n.lineno}: {what}: {self.src(n)[:60]!r} -> {new[:60]!r}",
                         ".".join(self.scope)))

    def visit_BinOp(self, n):
        swap = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.MatMult: "*",
                ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&"}
        s = swap.get(type(n.op))
        if s:
            self.put(n, f"({self.src(n.left)}) {s} ({self.src(n.right)})", "op")
        self.generic_visit(n)

    def visit_Compare(self, n):
        swap = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
                ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
                ast.NotIn: "in"}
        if len(n.ops) == 1:
            left, right = self.src(n.left), self.src(n.comparators[0])
            self.put(n, f"({left}) {swap[type(n.ops[0])]} ({right})", "cmp")
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                o = {ast.Lt: ">", ast.LtE: ">", ast.Gt: "<", ast.GtE: "<"}[type(n.ops[0])]
                self.put(n, f"({left}) {o} ({right})", "cmpflip")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, o.join(f"({self.src(v)})" for v in n.values), "bool")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            self.put(n, f"({self.src(n.operand)})", "unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.put(n, str(not v), "const")
        elif isinstance(v, int):
            self.put(n, str(v + 1), "const")
            if v > 1:
                self.put(n, str(v - 1), "const")
        elif isinstance(v, float):
            self.put(n, f"({v!r} * 1.01 + 1e-3)", "const")

    def visit_If(self, n):
        self.put(n.test, f"not ({self.src(n.test)})", "if")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, f"({self.src(n.body)})", "ifexp-a")
        self.put(n, f"({self.src(n.orelse)})", "ifexp-b")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.put(n, "pass", "drop")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.put(n, "pass", "drop")
        o = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
        if o:
            self.put(n, f"{self.src(n.target)} {o} {self.src(n.value)}", "aug")
        self.put(n, f"{self.src(n.target)} = {self.src(n.value)}", "aug=")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if all(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets):
            self.put(n, "pass", "drop")
        self.generic_visit(n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
            if n.func.attr in ("copy", "ravel", "squeeze", "flatten") and ".T.ravel()" not in self.src(n):
                self.put(n, self.src(n.func.value), "nocall")
        if len(n.args) == 2 and not n.keywords:
            a, b = self.src(n.args[0]), self.src(n.args[1])
            if a != b:
                self.put(n, f"{self.src(n.func)}({b}, {a})", "swapargs")
        for k in n.keywords:
            if isinstance(k.value, ast.Name) or isinstance(k.value, ast.Attribute):
                pass
        self.generic_visit(n)

    def visit_Slice(self, n):
        if n.upper is not None and n.lower is None and "nodes_count" not in self.src(n):
            a, b = self.span(n)
            self.out.append((a, b, ":", f"{n.lineno}: slice {self.src(n)!r} -> ':'",
                             ".".join(self.scope)))
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if n.attr == "T" and not self.src(n).endswith(("temperature.T", "potential.T")):
            self.put(n, self.src(n.value), "noT")
        self.generic_visit(n)

    # no mutation of annotations, defaults of types, decorators
    def visit_FunctionDef(self, n):
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
            self.visit(d)
        self.scope.append(n.name)
        for s in n.body:
            self.visit(s)
        self.scope.pop()

    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        for s in n.body:
            self.visit(s)
        self.scope.pop()

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Raise(self, n):
        pass


def mutants(path):
    text = open(os.path.join(SRC, path), encoding="utf-8").read()
    c = Collect(text)
    c.visit(ast.parse(text))
    out, seen = [], set()
    for a, b, new, what, scope in c.out:
        raw = c.raw[:a] + new.encode() + c.raw[b:]
        if raw in seen or raw == c.raw:
            continue
        try:
            ast.parse(raw)
        except SyntaxError:
            continue
        seen.add(raw)
        out.append((scope + " " + what, raw))
    return out


WORK = r"""
import sys, os, json, random, time, importlib, io, contextlib, warnings
props, limit = sys.argv[1].split(','), float(sys.argv[2])
warnings.simplefilter("ignore")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
from vf.core import run_case
from vf.run import known_findings
t0 = time.time(); n = 0
rng = random.Random(5)
todo = []
for p in props:
    try:
        m = importlib.import_module('vf.props.' + p)
        cs = [c for c in m.cases('quick', 1) if not c.get('jit')]
    except Exception as e:
        print(json.dumps({'killed': p, 'by': 'import ' + repr(e)[:100]}), file=sys.stderr); sys.exit()
    kn = known_findings(p.upper())
    by = {}
    for c in cs: by.setdefault(c.get('kind'), []).append(c)
    for k in by: by[k].sort(key=lambda c: -float(c.get('w', 1)) * rng.uniform(.5, 1.5))
    ks = list(by)
    i = 0
    while any(by.values()):
        for k in ks:
            if by[k]: todo.append((i, rng.random(), p, m, kn, by[k].pop())); i += 1
todo.sort(key=lambda t: t[:2])
for _, _, p, m, kn, c in todo:
    if time.time() - t0 > limit: break
    r = run_case(m, c); n += 1
    bad = [v for v in r['violations'] if v.get('finding') not in kn]
    if bad:
        print(json.dumps({'killed': p, 'by': bad[0]['monitor'], 'kind': c.get('kind'), 'n': n, 't': round(time.time()-t0,1), 'd': bad[0]['detail'][:120]}), file=sys.stderr); break
    if 'harness_error' in r:
        print(json.dumps({'killed': p, 'by': 'HARNESS', 'd': r['harness_error'][-200:]}), file=sys.stderr); break
else:
    pass
if not (n and (bad or 'harness_error' in r)):
    print(json.dumps({'survived': n, 'of': len(todo), 't': round(time.time()-t0,1)}), file=sys.stderr)
"""


def run_one(job):
    idx, path, what, raw, limit = job
    base = f"/tmp/mutw/{idx}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    try:
        shutil.copytree(os.path.join(SRC, "conmech"), os.path.join(base, "conmech"))
        with open(os.path.join(base, path), "wb") as f:
            f.write(raw)
        props = next(ps for k, ps in MAP if k in path)
        if any(k in path for k in ("problem_solver", "statement", "problems.py", "state/state")):
            props = next((ps for k, ps in CLASSES if k in what.split(" ")[0]), props)
        env = dict(os.environ, VERIF_REPO=base, NUMBA_DISABLE_JIT="1", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPATH=f"{VERIF}:{base}", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   MPLBACKEND="Agg", TMPDIR=base, HOME=base, VERIF_SCRATCH=base, PYTHONHASHSEED="0",
                   NUMBA_DISABLE_CUDA="1")
        try:
            p = subprocess.run(["nice", sys.executable, "-c", WORK, ",".join(props), str(limit)],
                               cwd=base, env=env, capture_output=True, text=True,
                               timeout=limit + 200)
            last = [x for x in p.stderr.splitlines() if x.startswith("{")]
            res = json.loads(last[-1]) if last else {"killed": "?", "by": p.stderr[-200:]}
        except subprocess.TimeoutExpired:
            res = {"killed": "?", "by": "hang"}
        return {"id": idx, "file": path, "what": what, **res}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("out", nargs="?")
    ap.add_argument("sub", nargs="?", default="")
    ap.add_argument("--limit", type=float, default=120)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--thin", type=int, default=1)
    ap.add_argument("--cap", type=int, default=0, help="mutants per file, sampled")
    ap.add_argument("--only", help="ids, comma separated")
    a = ap.parse_args()
    allm = []
    for f in files():
        ms = mutants(f)
        if a.cmd == "list":
            print(len(ms), f)
        for i, (what, raw) in enumerate(ms):
            allm.append((f"{f.replace('/', '.')}#{i}", f, what, raw))
    if a.cmd == "list":
        print(len(allm))
        return
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(x)["id"] for x in open(a.out, encoding="utf-8")}
    jobs = [(*m, a.limit) for m in allm if a.sub in m[1] and m[0] not in done]
    if a.only:
        jobs = [j for j in jobs if j[0] in a.only.split(",")]
    random.Random(1).shuffle(jobs)
    if a.cap:
        per = {}
        jobs = [j for j in jobs if per.setdefault(j[1], []).append(0) or len(per[j[1]]) <= a.cap]
    t = time.time()
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a", encoding="utf-8") as out:
        for r in ex.map(run_one, jobs):
            out.write(json.dumps(r) + "\n")
            out.flush()
    print(len(jobs), round(time.time() - t))


main()
