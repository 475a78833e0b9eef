"""Repeatability, isolation and untouched inputs."""
import json
import os
import subprocess
import sys
import tempfile

import numpy as np

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))

from vf import evo, scen, sut
from vf.core import VERIF, Skip
from vf.gen import f, rng_of
from vf.props import c13

RULE = (
    "pairs of random problems of every type: each is solved alone in a fresh setting, then again with the same solver, with new solvers of the same "
    "problem object, before, after, between and in the middle of the other one's steps (from load callbacks), step by step by resuming, compiled and "
    "interpreted, and in other processes; twins that differ in one parameter solved after each other and compared with processes that solve one of them only; every array and object the user hands over is fingerprinted around the history; non-trivial when both move"
)
KINDS = ("static", "poisson") + evo.KINDS
REQUIRED = [f"kind-{k}" for k in KINDS] + ["resumed-from-result", "same-solver", "new-solver", "after-other", "nested", "nested-same", "earlier-result", "inputs", "operators", "mesh-kept", "stepwise", "generators", "other-process", "compiled", "first-vs-alone", "law-order", "twins", "twins-differ", "from-rest"] + [f"twin-{m}" for m in ("direct", "global", "schur")] + [f"twin-kind-{k}" for k in KINDS]
ASSUMPTIONS = ["results are compared within optimiser accuracy", "compiled runs are compared on a few small problems only (compilation dominates)"]
TOL = 2e-4


def spec(rng, kind, small=False):
    s = c13.spec(rng, kind) if kind in c13.KINDS else evo.spec(rng, kind, method="schur", nmax=3)
    s["kind"] = kind
    if kind not in ("wave",):
        s["method"] = "schur"
    s["n"] = int(rng.integers(2, 4))
    if small or s["method"] == "global":
        s["mesh"] = scen.mesh2(rng, 2)
    s["share"] = True
    return s


def cases(tier, seed):
    n, no, nj, nl, nt = (5, 3, 2, 12, 5) if tier == "quick" else (90, 40, 16, 200, 60)
    out = []
    for i in range(n * len(KINDS)):
        rng = rng_of("C21", seed, "pair", i)
        kind = KINDS[i % len(KINDS)]
        a = spec(rng, kind)
        if i // len(KINDS) == 1 and kind in evo.KINDS:
            evo.at_rest(a)
        b = dict(a) if rng.random() < 0.15 else spec(rng, kind if rng.random() < 0.5 else str(rng.choice(KINDS)))
        if rng.random() < 0.3 and b["kind"] == a["kind"]:  # same mesh, different data
            b = dict(b, mesh=a["mesh"], contact=a["contact"], dirichlet=a["dirichlet"], method=a["method"])
        w = sum(3 if x["kind"] in evo.COUPLED else 1.5 for x in (a, b)) * 2
        out.append({"kind": kind, "mode": "pair", "a": a, "b": b, "seed": int(rng.integers(0, 2**31)), "w": w})
    for i in range(no):
        rng = rng_of("C21", seed, "process", i)
        kind = KINDS[int(rng.integers(0, len(KINDS)))]
        out.append({"kind": "process", "mode": "process", "a": spec(rng, kind), "seed": int(rng.integers(0, 2**31)), "w": 5})
    for i in range(nj):
        rng = rng_of("C21", seed, "compiled", i)
        kind = (("wave", "quasistatic", "temperature", "static", "relaxation", "dynamic", "piezo_dynamic", "poisson")[(i + 2 * seed) % 8])
        out.append({"kind": "compiled", "mode": "compiled", "a": spec(rng, kind, small=True), "seed": int(rng.integers(0, 2**31)), "w": 30, "jit": 1})
    for i in range(nl):
        rng = rng_of("C21", seed, "law", i)
        a = spec(rng, "static")
        a["contact"], a["dirichlet"] = "bottom", "top"
        a["law"] = {"law": "adhesive", "p": f(rng.uniform(1, 50), 2), "g": f(rng.uniform(0.02, 0.3), 3)}
        b = dict(a, law={"law": "adhesive", "p": f(rng.uniform(1, 50), 2), "g": f(rng.uniform(-0.3, -0.02), 3)})
        if i % 2:
            a["law"], b["law"] = {"law": "slope", "p": f(rng.uniform(30, 60), 2)}, {"law": "slope", "p": f(rng.uniform(1, 6), 2)}
        out.append({"kind": "laws", "mode": "laws", "a": a, "b": b, "w": 2})
    for i in range(nt * len(KINDS) + 2 * nt):
        rng = rng_of("C21", seed, "twin", i)
        extra = i >= nt * len(KINDS)  # laws of one factory with every method
        a = twin_base(rng, "static" if extra else KINDS[i % len(KINDS)], i // len(KINDS) if not extra else i)
        what = twin_of(rng, a, "law" if extra else None)
        out.append({"kind": "twins", "mode": "twins", "a": a, "b": what[1], "what": what[0], "seed": int(rng.integers(0, 2**31)), "w": 12})
    return out


def twin_base(rng, kind, i):
    a = spec(rng, kind, small=True)
    a["n"] = 2
    if kind == "static":
        a["method"] = ("direct", "global", "schur")[i % 3]
        a["contact"], a["dirichlet"] = "bottom", "top"
        a["law"] = {"law": str(rng.choice(["slope", "gap", "adhesive"])), "p": f(rng.uniform(5, 50), 2), "g": f(rng.uniform(-0.05, 0.0), 3)}
    elif kind not in ("poisson", "wave"):
        a["method"] = ("schur", "global")[i % 2]
        if a["method"] == "global":
            a["contact"], a["dirichlet"] = "bottom", "top"
    return a


def twin_of(rng, a, what=None):
    """the same problem with one ingredient changed"""
    b = json.loads(json.dumps(a))
    k = a["kind"]
    keys = ["mesh", "mesh", "mesh", "inner", "outer"]
    if k not in ("poisson", "wave"):
        keys += ["mu", "la"] + ["law"] * 4
    if k in ("quasistatic", "dynamic") or k in evo.COUPLED:
        keys += ["th", "ze"]
    if k in evo.KINDS:
        keys += ["dt"]
    keys += {"relaxation": ["relax"] * 2, "temperature": ["expansion", "conductivity", "law2"], "wave": ["prop", "law"]}.get(k, [])
    if k.startswith("piezo"):
        keys += ["piezo", "permittivity", "law2"]
    keys = [q for q in keys if q == "mesh" or a.get(q) is not None]
    what = what or str(rng.choice(keys))
    if what == "mesh":
        m = ([[1.7, 0.2], [0.0, 0.6]], [[0.0, 1.0], [1.0, 0.0]], [[1.6, 0.0], [0.0, 0.625]], [[-1.0, 0.0], [0.0, -1.0]])[a["mesh"].get("seed", 0) % 4]
        b["mesh"]["affine"] = (np.array(m) @ np.array(a["mesh"].get("affine") or np.eye(2))).tolist()
    elif what in ("inner", "outer"):
        b[what]["const"] = [2.5 * x + 0.3 for x in b[what]["const"]]
    elif what in ("law", "law2"):
        b[what] = dict(b[what], p=float(b[what].get("p", 1.0)) * (0.02 if rng.random() < 0.5 else 30.0))
    elif what == "relax":
        b[what]["base"] = (3.0 * np.array(b[what]["base"])).tolist()
    elif what in ("expansion", "conductivity", "piezo", "permittivity"):
        b[what] = ((0.3 if what in ("expansion", "piezo") else 3.0) * np.array(b[what])).tolist()
    elif what == "dt":
        b[what] = 0.4 * b[what]
    else:
        b[what] = 2.5 * b[what]
    return what, b


def run(case, mon):
    {"twins": run_twins, "pair": run_pair, "process": run_process, "compiled": run_process, "laws": run_laws}[case["mode"]](case, mon)


# ------------------------------------------------------------------------------ a user and what it owns
class User:
    """one problem whose arrays all belong to the user, and the fingerprints of them"""

    def __init__(self, s):
        self.s = s
        self.owned = {}
        self.hook = None
        self.busy = False
        self.calls = 0
        if s["kind"] == "static":
            self.sc = scen.Scenario(s)
            self.problem = sut.static_problem(self.sc.descr, self.sc.bnd, s["mu"], s["la"], self.sc.law, self.sc.inner, self.sc.outer)
        elif s["kind"] == "poisson":
            self.sc = scen.Scenario(dict(s, contact="none", c=None))
            self.sc.bnd = sut.C().BoundariesDescription(dirichlet=(self.sc.is_dirichlet, self.condition))
            self.problem = sut.poisson_problem(self.sc.descr, self.sc.bnd, lambda x, t=None: self.sc.f_in(x, t), lambda x, t=None: self.sc.f_out(x, t))
        else:
            self.sc = evo.Evo(s)
            self.problem = self.sc.problem
        self.own("nodes", self.sc.descr.given[0])
        self.own("elements", self.sc.descr.given[1])
        for k in dir(self.problem):
            if not k.startswith("__"):
                v = getattr(self.problem, k, None)
                if isinstance(v, np.ndarray):
                    self.own("problem." + k, v)
        self.fields = {}
        self.sc.f_in = self.load(self.sc.f_in, "inner")
        self.sc.f_out = self.load(self.sc.f_out, "outer")

    def condition(self, x):
        return self.keep("condition", np.full(len(np.atleast_2d(x)), 0.3))

    def own(self, name, array):
        self.owned[name] = (array, np.array(array))

    def keep(self, name, array):
        """the user hands out the same array object every time it would compute the same"""
        key = (name, array.shape)
        if key not in self.fields or not np.array_equal(self.fields[key][1], array):
            self.fields[key] = (array, np.array(array))
        return self.fields[key][0]

    def load(self, fn, name):
        def wrapped(x, t=None):
            self.calls += 1
            if self.hook is not None and not self.busy:
                self.busy = True
                try:
                    self.hook(self)
                finally:
                    self.busy = False
            key = f"{name}-{tuple(np.round(x, 12))}-{t}"
            return self.keep(key, np.asarray(fn(x, t)))

        return wrapped

    def solver(self):
        s, ps = self.s, sut.C().ps
        if s["kind"] == "static":
            return ps.StaticSolver(self.problem, s["method"])
        if s["kind"] == "poisson":
            return ps.PoissonSolver(self.problem, "direct")
        return self.sc.make_solver()

    def solve(self, solver, outputs=None, n=None, **kw):
        s = self.s
        n = n or s["n"]
        if s["kind"] == "poisson":
            return [c13.quiet(solver.solve, **kw)]
        if s["kind"] == "static":
            g = np.zeros((solver.body.mesh.nodes_count, 2))
            g = self.keep("guess", g)
            return [c13.quiet(solver.solve, initial_displacement=(g if s["mesh"]["seed"] % 2 else (lambda x: g)), **kw)]
        args = {k: (lambda x, k=k, v=v: self.keep(k, np.asarray(v(x)))) for k, v in self.sc.initial().items()}
        outputs = outputs if outputs is not None else list(range(1, n + 1))
        before = list(outputs)
        res = self.sc.run(solver, n, outputs, **dict(args, **kw))
        assert before == list(outputs)
        return res

    def stream(self, solver, n):
        """the steps one by one, as the user sees them (generators, or resuming)"""
        if self.s["kind"] == "temperature":
            yield from solver.solve(n_steps=n, output_step=tuple(range(1, n + 1)), **self.sc.initial())
        else:
            state = None
            for _ in range(n):
                kw = {} if state is None else {"state": state}
                (state,) = self.sc.run(solver, 1, [1], **kw)
                yield state

    def intact(self, mon, detail):
        for k, (a, b) in list(self.owned.items()) + [(k[0], v) for k, v in self.fields.items()]:
            mon.check("inputs", a.shape == b.shape and np.array_equal(a, b), f"{detail}: the user's {k} changed")


def operators(solver):
    d = solver.body.dynamics
    out = {}
    for k in ("elasticity", "viscosity", "thermal_expansion", "thermal_conductivity", "piezoelectricity", "permittivity", "poisson_operator", "wave_operator", "acceleration_operator", "volume_at_nodes"):
        v = getattr(d, k, None)
        if v is not None:
            try:
                out[k] = np.array(sut.data(v), dtype=float)
            except (TypeError, ValueError):
                continue
    return out


def same(mon, name, got, want, detail, tol=TOL):
    mon.check(name, len(got) == len(want), f"{detail}: {len(got)} states")
    for i, (x, w) in enumerate(zip(got, want)):
        p = x if isinstance(x, dict) else c13.prints(x)
        mon.check(name, abs(p["time"] - w["time"]) <= 1e-9, f"{detail}: time {p['time']} instead of {w['time']}")
        for k in ("displacement", "velocity", "absement", "displaced_nodes", "temperature", "electric_potential"):
            if w[k] is not None:
                mon.close(name, p[k], w[k], tol, np.abs(w[k]).max() + 1e-6, f"{detail}: {k} of output {i}")


def alone(s):
    u = User(s)
    return [c13.prints(x) for x in u.solve(u.solver())]


def usable(u, solver):
    if u.s["kind"] in evo.COUPLED:
        u.sc.bind2()
        if u.sc.contraction() > 0.3:
            raise Skip("staggered iteration contracts slowly")


def run_pair(case, mon):
    a, b = case["a"], case["b"]
    rng = np.random.default_rng(case["seed"])
    want_a, want_b = alone(a), alone(b)
    A, B = User(a), User(b)
    mon.seen(f"kind-{a['kind']}")
    sa, sb = A.solver(), B.solver()
    for u, s in ((A, sa), (B, sb)):
        usable(u, s)
    ops = operators(sa)
    mesh = c13.mesh_arrays(sa.body.mesh)
    results = []

    def go(u, solver, name, detail):
        got = u.solve(solver)
        same(mon, name, got, want_a if u is A else want_b, detail)
        results.append(([evo.Snap(x) for x in got], got))

    go(A, sa, "first-vs-alone", "the first solve")
    if a.get("rest"):
        mon.seen("from-rest")
    order = list(rng.permutation(["same", "other", "new", "nested", "nested-same"])) + ["same"]
    for what in order:
        if what == "same":
            go(A, sa, "same-solver", "the same solver again")
        elif what == "other":
            go(B, sb, "after-other", f"a {b['kind']} run after {a['kind']} runs")
        elif what == "new":
            go(A, A.solver(), "new-solver", "a new solver of the same problem object")
        elif what == "nested":  # the other problem is solved in the middle of this one's steps
            at = {A.calls + 1} | {A.calls + int(rng.integers(1, 4 * len(mesh["nodes"]) * a["n"])) for _ in range(2)}

            def hook(u, at=at):
                if u.calls in at:
                    go(B, sb, "nested", f"a {b['kind']} run from a load callback of a {a['kind']} run")

            A.hook = hook
            fresh = A.solver()
            go(A, fresh, "nested", f"a {a['kind']} run interrupted by {b['kind']} runs")
            A.hook = None
        else:  # a second solver of the same problem object runs in the middle
            second = A.solver()
            done = []

            def hook2(u, at=A.calls + int(rng.integers(1, 2 * len(mesh["nodes"]) * a["n"]))):
                if u.calls >= at and not done:
                    done.append(1)
                    go(A, second, "nested-same", "a second solver of the same problem in the middle of a run")

            A.hook = hook2
            go(A, A.solver(), "nested-same", "a run interrupted by another solver of the same problem")
            A.hook = None
    if a["kind"] == "wave":  # a run that goes on from an earlier result, twice
        snaps, states = results[0]
        more = [A.sc.run(sa, 2, [2], state=states[0])[0] for _ in range(2)]
        mon.seen("resumed-from-result")
        if len(states) > 2:
            for i, st in enumerate(more):
                same(mon, "resumed-from-result", [st], [want_a[2]], f"two steps after the first output, time {i + 1}")
    for snaps, states in results:
        for x, y in zip(snaps, states):
            mon.check("earlier-result", x.diff(y) == 0.0, "an earlier result changed")
    A.intact(mon, "user A")
    B.intact(mon, "user B")
    now = operators(sa)
    for k, v in ops.items():
        if k in now:
            mon.check("operators", np.array_equal(v, now[k]), f"operator {k} changed by solving")
    for k, v in c13.mesh_arrays(sa.body.mesh).items():
        mon.check("mesh-kept", np.array_equal(v, mesh[k]), f"mesh {k} changed by solving")
    if a["kind"] in ("wave", "temperature") and b["kind"] in ("wave", "temperature"):
        A, B = User(a), User(b)
        n = min(a["n"], b["n"])
        got_a, got_b = [], []
        ga, gb = A.stream(A.solver(), a["n"]), B.stream(B.solver(), b["n"])
        for _ in range(n):
            got_a.append(c13.prints(next(ga)))
            got_b.append(c13.prints(next(gb)))
        c = "stepwise" if a["kind"] == "wave" else "generators"
        same(mon, c, got_a, want_a[:n], f"{a['kind']} run step by step next to another one")
        same(mon, c, got_b, want_b[:n], f"{b['kind']} run step by step next to another one")
    elif a["kind"] in ("wave", "temperature"):
        A = User(a)
        got = [c13.prints(x) for x in A.stream(A.solver(), a["n"])]
        same(mon, "stepwise" if a["kind"] == "wave" else "generators", got, want_a, "run step by step")
    field = "temperature" if a["kind"] == "poisson" else "displacement"
    if np.abs(want_a[-1][field]).max() > 1e-9:
        mon.nontrivial(want_a[-1][field])


def run_laws(case, mon):
    """laws of the same class name with other parameters, in both orders"""
    a, b = case["a"], case["b"]
    got = []
    for order in ((a, b), (b, a)):
        got.append([alone(s)[0] for s in order])
    same(mon, "law-order", [got[1][1]], [got[0][0]], f"{a['law']} after {b['law']}")
    same(mon, "law-order", [got[0][1]], [got[1][0]], f"{b['law']} after {a['law']}")
    d = np.abs(got[0][0]["displacement"] - got[0][1]["displacement"]).max()
    size = np.abs(got[0][0]["displacement"]).max() + np.abs(got[0][1]["displacement"]).max()
    if case["a"]["law"]["law"] == "adhesive" and size > 1e-6:
        mon.check("law-order", d > 1e-3 * size, f"{a['law']} and {b['law']} give the same solution")
    mon.nontrivial(got[0][0]["displacement"], got[0][1]["displacement"])


def elsewhere(s, seed):
    """the results of a process that does nothing but solve this problem"""
    with tempfile.TemporaryDirectory(prefix="vf21-") as base:
        with open(os.path.join(base, "case.json"), "w", encoding="utf-8") as file:
            json.dump({"a": s}, file)
        env = dict(os.environ, PYTHONPATH=VERIF + os.pathsep + os.environ.get("PYTHONPATH", ""), PYTHONHASHSEED=str(1 + seed % 1000), NUMBA_DISABLE_JIT="1")
        r = subprocess.run([sys.executable, "-W", "ignore", "-m", "vf.props.c21", base], cwd=VERIF, env=env, capture_output=True, text=True, timeout=400)
        if r.returncode:
            raise RuntimeError(r.stderr[-1500:])
        return dict(np.load(os.path.join(base, "out.npz")))


def run_twins(case, mon):
    """problems that differ in one parameter only, one after the other"""
    a, b = case["a"], case["b"]
    A, B = User(a), User(b)
    sa, sb = A.solver(), B.solver()
    for u, s in ((A, sa), (B, sb)):
        usable(u, s)
    rng = np.random.default_rng(case["seed"])
    got = []
    order = [("a", A, sa), ("b", B, sb), ("a", User(a), None), ("b", User(b), None)]
    if rng.random() < 0.5:
        order = [order[2], order[3], order[1], order[0]]
    for name, u, solver in order:
        got.append((name, [c13.prints(x) for x in u.solve(solver or u.solver())]))
    want = {"a": elsewhere(a, case["seed"]), "b": elsewhere(b, case["seed"])}
    for k, (name, states) in enumerate(got):
        for i, w in enumerate(states):
            for q in ("displacement", "velocity", "absement", "temperature", "electric_potential"):
                if w[q] is not None:
                    x = want[name][f"{q}-{i}"]
                    mon.close("twins", w[q], x, TOL, np.abs(x).max() + 1e-6, f"{a['kind']} {a['method']}: {q} of output {i}, solve number {k + 1} of problems that differ in {case['what']}")
    mon.seen(f"twin-{a['method']}")
    mon.seen(f"twin-kind-{a['kind']}")
    q = "temperature" if a["kind"] == "poisson" else "displacement"
    i = len(got[0][1]) - 1
    x, y = want["a"][f"{q}-{i}"], want["b"][f"{q}-{i}"]
    if np.abs(x - y).max() > 1e-3 * np.abs(x).max():
        mon.seen("twins-differ")
        mon.nontrivial(x, y)


def run_process(case, mon):
    """the same problem in an interpreted process with another hash seed"""
    a = case["a"]
    u = User(a)
    solver = u.solver()
    usable(u, solver)
    want = [c13.prints(x) for x in u.solve(solver)]
    got = elsewhere(a, case["seed"])
    name = "compiled" if case["mode"] == "compiled" else "other-process"
    mon.check(name, np.array_equal(got["nodes"], solver.body.mesh.nodes) and np.array_equal(got["elements"], solver.body.mesh.elements), "the mesh is numbered differently in another process")
    for i, w in enumerate(want):
        for k in ("displacement", "velocity", "absement", "temperature", "electric_potential"):
            if w[k] is not None:
                mon.close(name, got[f"{k}-{i}"], w[k], TOL, np.abs(w[k]).max() + 1e-6, f"{a['kind']}: {k} of output {i} in an interpreted process")
    for k, v in operators(solver).items():
        mon.close(name, got["op-" + k], v, 1e-10, np.abs(v).max() + 1e-12, f"{a['kind']}: operator {k}")
    mon.nontrivial(want[-1]["displacement"])


def main(argv):
    with open(os.path.join(argv[0], "case.json"), encoding="utf-8") as file:
        case = json.load(file)
    u = User(case["a"])
    solver = u.solver()
    usable(u, solver)
    out = {"nodes": solver.body.mesh.nodes, "elements": solver.body.mesh.elements}
    out.update({"op-" + k: v for k, v in operators(solver).items()})
    for i, x in enumerate(u.solve(solver)):
        out.update({f"{k}-{i}": v for k, v in c13.prints(x).items() if isinstance(v, np.ndarray)})
    np.savez(os.path.join(argv[0], "out.npz"), **out)


if __name__ == "__main__":
    import vf.props.c21 as me

    me.main(sys.argv[1:])
