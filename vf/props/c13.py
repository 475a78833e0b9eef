"""Saving, loading, resuming, and saves that fail."""
import contextlib
import io
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile

import numpy as np

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))

from vf import evo, scen, sut
from vf.core import VERIF
from vf.gen import f, rng_of

RULE = (
    "runs of every problem type stopped at random steps: the states are saved, loaded (also in another process and after every truncation), resumed and "
    "compared with the uninterrupted run; saves are made to fail by unpicklable content, bad paths, full devices and file-size limits that cut the "
    "write at random bytes, also by killing the saving process; non-trivial when the saved state moves"
)
KINDS = ("static", "quasistatic", "dynamic", "temperature", "piezo_quasistatic", "piezo_dynamic", "wave", "poisson")
REQUIRED = [f"round-trip-{k}" for k in KINDS] + [
    "saved-mesh", "saved-products", "other-process", "resumed", "resumed-elsewhere", "saving-run", "failed-pickle", "failed-open", "failed-write", "failed-full",
    "killed", "usable", "previous-file", "truncated", "overwritten", "restored",
]
ASSUMPTIONS = ["functions given to the body (relaxation tensors) can be pickled or make the save fail as a whole", "files are cut at byte boundaries by size limits and signals"]
CLASSES = {"temperature": "TemperatureState", "poisson": "TemperatureState", "piezo_quasistatic": "PiezoelectricState", "piezo_dynamic": "PiezoelectricState"}


def spec(rng, kind):
    if kind == "wave":
        s = evo.wave_spec(rng, str(rng.choice(["boundary", "boundary", "interior"])))
        s["mesh"] = scen.mesh2(rng, 3)
    else:
        s = evo.spec(rng, "quasistatic" if kind in ("static", "poisson") else kind, method="schur", nmax=3)
        s["kind"] = kind
        if kind == "poisson":
            s["fd"] = 1
            for k in ("inner", "outer"):
                s[k] = scen.load(rng, 1)
                s[k].pop("lin", None)
    s["n"] = int(rng.integers(3, 6)) if s["method"] != "global" else 3
    return s


def cases(tier, seed):
    n, no, nj = (6, 3, 1) if tier == "quick" else (80, 40, 6)
    out = []
    for kind in KINDS:
        for i in range(2 * n if kind == "wave" else n):
            rng = rng_of("C13", seed, kind, i)
            s = spec(rng, kind)
            out.append({"kind": kind, "mode": "run", "s": s, "stop": int(rng.integers(1, s["n"])), "seed": int(rng.integers(0, 2**31)), "w": 3 if s["method"] == "global" else 1.5})
    for i in range(no):
        rng = rng_of("C13", seed, "other", i)
        s = spec(rng, "wave")
        out.append({"kind": "other-process", "mode": "other", "s": s, "stop": int(rng.integers(1, s["n"])), "seed": int(rng.integers(0, 2**31)), "w": 8})
    for i in range(nj):
        rng = rng_of("C13", seed, "jit", i)
        s = spec(rng, "wave")
        s["mesh"] = scen.mesh2(rng, 2)
        out.append({"kind": "wave", "mode": "run", "s": s, "stop": 1, "seed": int(rng.integers(0, 2**31)), "w": 5, "jit": 1})
    return out


def run(case, mon):
    base = tempfile.mkdtemp(prefix="vf13-")
    try:
        {"run": run_run, "other": run_other}[case["mode"]](case, mon, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


# ------------------------------------------------------------------------------ the simulation
def make(s):
    """(harness, solver, solve(n, outputs, **kw))"""
    c = sut.C()
    if s["kind"] == "static":
        sc = scen.Scenario(s)
        solver = c.ps.StaticSolver(sut.static_problem(sc.descr, sc.bnd, s["mu"], s["la"], sc.law, sc.inner, sc.outer), "schur")
        return sc, solver, lambda n, outputs=None, **kw: [quiet(solver.solve, initial_displacement=lambda x: np.zeros_like(x), **kw)]
    if s["kind"] == "poisson":
        sc = scen.Scenario(dict(s, contact="none", c=None))
        bnd = c.BoundariesDescription(dirichlet=(sc.is_dirichlet, lambda x: np.full(len(np.atleast_2d(x)), 0.3)))
        solver = c.ps.PoissonSolver(sut.poisson_problem(sc.descr, bnd, lambda x, t=None: sc.f_in(x), lambda x, t=None: sc.f_out(x)), "direct")
        return sc, solver, lambda n, outputs=None, **kw: [quiet(solver.solve, **kw)]
    ev = evo.Evo(s)
    solver = ev.make_solver()
    return ev, solver, lambda n, outputs=None, **kw: ev.run(solver, n, outputs, **kw)


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


class Keeper:
    """mixed into a product: what was there at every step"""


def product():
    from conmech.state.products.product import Product

    if "Recorder" not in globals():

        class Recorder(Product):
            def __init__(self, path=None):
                super().__init__("recorder")
                self.path = path

            def update(self, state):
                self.data[state.time] = (np.array(state.displacement), np.array(state.velocity))
                if self.path is not None:
                    state.save(f"{self.path}-{len(self.data)}")

        Recorder.__qualname__ = "Recorder"
        Recorder.__module__ = "vf.props.c13"
        globals()["Recorder"] = Recorder
        sys.modules["vf.props.c13"].__dict__["Recorder"] = Recorder
    return globals()["Recorder"]


def __getattr__(name):  # unpickling in another process
    if name == "Recorder":
        return product()
    raise AttributeError(name)


def mesh_arrays(mesh):
    b = mesh.boundaries
    out = {"nodes": mesh.nodes, "elements": mesh.elements, "contact": mesh.contact_boundary, "neumann": mesh.neumann_boundary, "dirichlet": mesh.dirichlet_boundary, "boundary": mesh.boundary_surfaces, "normals": getattr(b, "contact_normals", None)}
    return {k: np.array(v, dtype=float) for k, v in out.items() if v is not None}


def counts(mesh):
    return [int(getattr(mesh, k)) for k in ("nodes_count", "contact_nodes_count", "neumann_nodes_count", "dirichlet_nodes_count", "independent_nodes_count", "dimension")]


def prints(state):
    """everything of a state that a save must keep"""
    out = {k: (None if v is None else np.array(v)) for k, v in ((k, getattr(state, k, None)) for k in evo.Snap.NAMES)}
    out["time"] = float(state.time)
    return out


def same(mon, name, a, b, detail):
    ok = True
    for k, v in a.items():
        w = b[k]
        if (v is None) != (w is None):
            ok = mon.check(name, False, f"{detail}: {k} is {w}")
        elif v is not None:
            ok &= mon.check(name, np.array_equal(np.asarray(v), np.asarray(w)), f"{detail}: {k} differs")
    return ok


def data_of(p):
    return [(float(k), [np.asarray(x) for x in (v if isinstance(v, tuple) else (v,))]) for k, v in p.data.items()]


def same_products(mon, name, a, b, detail):
    if mon.check(name, sorted(a) == sorted(b), f"{detail}: products {sorted(b)} instead of {sorted(a)}"):
        for k in a:
            x, y = data_of(a[k]), data_of(b[k])
            mon.check(name, type(a[k]) is type(b[k]) and len(x) == len(y) and all(p[0] == q[0] and all(np.array_equal(u, w) for u, w in zip(p[1], q[1])) for p, q in zip(x, y)), f"{detail}: entries of {k} differ")


def law_fn(**kw):
    return np.zeros((len(kw["elements"]), 2, 2)) + float(kw["time"])


def outside(solver):
    """the user's functions held by the running simulation"""
    d = solver.body.dynamics
    out = {}
    for name in ("force", "temperature", "electric"):
        o = getattr(d, name, None)
        for side in ("inner", "outer"):
            if o is not None and hasattr(o, side):
                out[name, side] = getattr(o, side).source
    return out


def restored(mon, solver, state, before, detail):
    now = outside(solver)
    for k, v in before.items():
        mon.check("restored", now[k] == v, f"{detail}: {k} source is {now[k]}")
    mon.check("restored", state.setup == {"a": 1} and state.constitutive_law is law_fn, f"{detail}: setup {state.setup}, law {state.constitutive_law}")


def run_run(case, mon, base):
    s = case["s"]
    c = sut.C()
    rng = np.random.default_rng(case["seed"])
    steady = s["kind"] in ("static", "poisson")
    n, m = s["n"], case["stop"]
    records = s["kind"] in ("static", "quasistatic", "dynamic", "wave")
    # the uninterrupted run
    ev, _, solve = make(s)
    full = solve(n, None if steady else list(range(1, n + 1)))
    trace = [prints(x) for x in full]
    if np.abs(trace[-1]["displacement"]).max() > 1e-9 or s["kind"] == "poisson":
        mon.nontrivial(trace[-1]["displacement"] if s["kind"] != "poisson" else trace[-1]["temperature"])
    # stop, save, look again
    ev, solver, solve = make(s)
    kw = {"products": [product()()]} if records else {}
    state = solve(m, None if steady else [m], **kw)[-1]
    was = prints(state)
    state.setup, state.constitutive_law = {"a": 1}, law_fn
    src = outside(solver)
    arrays = mesh_arrays(solver.body.mesh)
    path = os.path.join(base, "state")
    state.save(path)
    restored(mon, solver, state, src, "after a save")
    same(mon, "restored", was, prints(state), "the saved state itself")
    same(mon, "saved-mesh", arrays, mesh_arrays(solver.body.mesh), "the mesh of the saved state itself")
    loaded = type(state).load(path) if rng.random() < 0.5 else c.st.State.load(path)
    mon.seen(f"round-trip-{s['kind']}")
    mon.check("class", type(loaded).__name__ == CLASSES.get(s["kind"], "State"), f"loads as {type(loaded).__name__}")
    same(mon, "round-trip", was, prints(loaded), "loaded state")
    same(mon, "saved-mesh", arrays, mesh_arrays(loaded.body.mesh), "loaded mesh")
    mon.check("saved-mesh", counts(solver.body.mesh) == counts(loaded.body.mesh), f"loaded mesh counts {counts(loaded.body.mesh)} instead of {counts(solver.body.mesh)}")
    same_products(mon, "saved-products" if records else "no-products", state.products, loaded.products, "loaded state")
    for name in ("displacement", "velocity", "displaced_nodes"):
        mon.check("own-storage", not np.shares_memory(getattr(loaded, name), getattr(state, name)), f"{name} of the loaded state is shared")
    # cut files are never taken for states
    blob = open(path, "rb").read()
    for cut in sorted({0, 1, len(blob) - 1, len(blob) // 2} | {int(x) for x in rng.integers(0, len(blob), 6)}):
        with open(path + ".cut", "wb") as file:
            file.write(blob[:cut])
        try:
            c.st.State.load(path + ".cut")
            mon.check("truncated", False, f"the first {cut} of {len(blob)} bytes load as a state")
        except Exception:
            mon.check("truncated", True)
    faults(case, mon, base, rng, solver, state, src, was, path)
    if s["kind"] == "wave":
        resume(case, mon, base, trace, path)
    if not steady:
        saving(case, mon, base, trace)
        go_on(case, mon, base, trace)


class Refuses:
    """cannot be pickled: raises once asked"""

    def __init__(self, error):
        self.error = error

    def __reduce__(self):
        raise self.error

    def update(self, state):
        pass

    def copy(self):
        return self


def failures(base, rng, state):
    """(name, context manager, path or None for the good path)"""

    @contextlib.contextmanager
    def unpicklable():
        error = (RuntimeError("no"), MemoryError(), TypeError("no"), KeyboardInterrupt(), OSError("no"))[int(rng.integers(0, 5))]
        where = int(rng.integers(0, 3))
        name = "zzz-refuses"
        if where == 0:
            state.products[name] = Refuses(error)
        elif where == 1:
            state.body.mesh.vf_extra = Refuses(error)
        else:
            state.vf_extra = Refuses(error)
        try:
            yield
        finally:
            state.products.pop(name, None)
            for o in (state, state.body.mesh):
                if hasattr(o, "vf_extra"):
                    del o.vf_extra

    @contextlib.contextmanager
    def limit():
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (int(rng.integers(0, 12000)), hard))
        try:
            yield
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))

    os.makedirs(os.path.join(base, "folder"), exist_ok=True)
    nothing = contextlib.nullcontext
    return [
        ("failed-pickle", unpicklable, None),
        ("failed-pickle", unpicklable, None),
        ("failed-open", nothing, os.path.join(base, "absent", "state")),
        ("failed-open", nothing, os.path.join(base, "folder")),
        ("failed-full", nothing, "/dev/full"),
        ("failed-write", limit, None),
        ("failed-write", limit, None),
    ]


def faults(case, mon, base, rng, solver, state, src, was, path):
    c = sut.C()
    for name, cm, where in failures(base, rng, state):
        target = path if where is None else where
        failed = None
        with cm():
            try:
                state.save(target)
            except BaseException as e:  # pylint: disable=broad-except
                failed = e
        mon.check(name, failed is not None, f"a save to {os.path.basename(target)} that cannot succeed reports nothing")
        restored(mon, solver, state, src, f"after a failed save ({name}, {type(failed).__name__})")
        same(mon, "restored", was, prints(state), f"the state after a failed save ({name})")
        if where is None:
            try:
                old = c.st.State.load(path)
            except Exception:
                old = None
            if name == "failed-pickle":  # nothing was written yet
                mon.check("previous-file", old is not None, f"the previous file cannot be read after a failed save ({type(failed).__name__})")
            if old is not None:
                same(mon, "previous-file", was, prints(old), f"the previous file after a failed save ({name})")
                if hasattr(old, "vf_extra") or "zzz-refuses" in old.products:
                    mon.fail("previous-file", "the failed state was written")
    # and a later save works again
    state.displacement = state.displacement + 1.0
    now = prints(state)
    state.save(path)
    same(mon, "overwritten", now, prints(c.st.State.load(path)), "second save to the same file")
    state.displacement = state.displacement - 1.0
    state.displacement[:] = was["displacement"]
    state.save(path)
    same(mon, "overwritten", was, prints(c.st.State.load(path)), "third save to the same file")
    mon.seen("usable")


def tail(mon, name, s, states, trace, detail):
    for st, want in zip(states, trace):
        got = prints(st)
        mon.check(name, abs(got["time"] - want["time"]) <= 1e-9, f"{detail}: time {got['time']} instead of {want['time']}")
        for k in ("displacement", "velocity", "absement", "displaced_nodes", "temperature", "electric_potential"):
            if want[k] is not None:
                mon.close(name, got[k], want[k], 2e-4, np.abs(want[k]).max() + 1e-6, f"{detail}: {k} at {want['time']:.4g}")


def resume(case, mon, base, trace, path):
    """a new solver continues from the file"""
    s, n, m = case["s"], case["s"]["n"], case["stop"]
    loaded = sut.C().st.State.load(path)
    ev, solver, solve = make(s)
    states = solve(n - m, list(range(1, n - m + 1)), state=loaded)
    mon.check("resumed", len(states) == n - m, f"{len(states)} states")
    tail(mon, "resumed", s, states, trace[m:], f"resumed after step {m}")
    p = states[-1].products.get("recorder")
    mon.check("resumed-products", p is not None and len(p.data) == n, f"the recorder has {None if p is None else len(p.data)} entries after {n} steps")
    # twice from the same file, with the solver used before
    again = solve(n - m, [n - m], state=sut.C().st.State.load(path))
    tail(mon, "resumed", s, again, trace[n - 1 :], f"resumed after step {m} a second time")


def saving(case, mon, base, trace):
    """a product that saves the state at every step"""
    s, n = case["s"], case["s"]["n"]
    if s["kind"] in evo.COUPLED:
        return
    ev, solver, solve = make(s)
    stem = os.path.join(base, "step")
    states = solve(n, list(range(1, n + 1)), products=[product()(stem)])
    tail(mon, "saving-run", s, states, trace, "run that saves every step")
    for k in range(1, n + 1):
        st = sut.C().st.State.load(f"{stem}-{k}")
        for name in ("displacement", "velocity", "displaced_nodes"):
            if name in ("velocity",) or True:
                mon.close("saving-run", getattr(st, name), trace[k - 1][name], 2e-4, np.abs(trace[k - 1][name]).max() + 1e-6, f"file of step {k}: {name}")


def go_on(case, mon, base, trace):
    """saves, good and failing, between the output steps of a running simulation do not disturb it"""
    s, n = case["s"], case["s"]["n"]
    if s["kind"] in evo.COUPLED:
        return
    rng = np.random.default_rng(case["seed"] + 1)
    ev, solver, solve = make(s)
    from conmech.state.products.product import Product

    class Meddler(Product):
        def __init__(self):
            super().__init__("meddler")

        def copy(self):
            return self

        def update(self, state):
            todo = failures(base, rng, state)
            name, cm, where = todo[int(rng.integers(0, len(todo)))]
            with cm():
                try:
                    state.save(os.path.join(base, "meddled") if where is None else where)
                except BaseException:  # pylint: disable=broad-except
                    mon.seen("usable")

    states = solve(n, list(range(1, n + 1)), products=[Meddler()])
    tail(mon, "usable", s, states, trace, "run with failing saves")


# ------------------------------------------------------------------------------ other processes
def child(args, limit=None, check=True):
    env = dict(os.environ, PYTHONPATH=VERIF + os.pathsep + os.environ.get("PYTHONPATH", ""))
    pre = None
    if limit is not None:

        def pre():
            import signal

            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)

    return subprocess.run([sys.executable, "-W", "ignore", "-m", "vf.props.c13"] + args, cwd=VERIF, env=env, capture_output=True, text=True, timeout=300, preexec_fn=pre)


def run_other(case, mon, base):
    s, n, m = case["s"], case["s"]["n"], case["stop"]
    rng = np.random.default_rng(case["seed"])
    c = sut.C()
    _, _, solve = make(s)
    full = solve(n, list(range(1, n + 1)))
    trace = [prints(x) for x in full]
    _, solver, solve = make(s)
    (state,) = solve(m, [m], products=[product()()])
    path = os.path.join(base, "state")
    state.save(path)
    with open(os.path.join(base, "case.json"), "w", encoding="utf-8") as file:
        json.dump(case, file)
    r = child(["resume", base])
    if r.returncode == 77:
        mon.check("other-process", False, f"cannot load: {r.stdout[-400:]}")
        return
    if r.returncode:
        raise RuntimeError(r.stderr[-1500:])
    got = np.load(os.path.join(base, "out.npz"))
    was = prints(state)
    for k in ("displacement", "velocity", "absement", "displaced_nodes"):
        mon.check("other-process", np.array_equal(got["loaded_" + k], was[k]), f"{k} differs in another process")
    for k, v in mesh_arrays(solver.body.mesh).items():
        mon.check("other-process", np.array_equal(got["mesh_" + k], v), f"mesh {k} differs in another process")
    mon.check("other-process", int(got["entries"]) == m, f"{int(got['entries'])} recorded entries in another process")
    want = trace[-1]
    for k in ("displacement", "velocity"):
        mon.close("resumed-elsewhere", got["end_" + k], want[k], 2e-4, np.abs(want[k]).max() + 1e-6, f"{k} resumed in another process")
    # a process that dies while it overwrites the file
    good = prints(state)
    size = os.path.getsize(path)
    r = child(["die", base, str(int(rng.integers(1, size)))], limit=True)
    died = r.returncode < 0 or r.returncode == 78
    if not died:
        raise RuntimeError(f"{r.returncode} {r.stdout[-300:]} {r.stderr[-1000:]}")
    try:
        old = c.st.State.load(path)
    except Exception:
        old = None
    mon.seen("killed")
    if old is not None:
        same(mon, "previous-file", good, prints(old), "the file after the saving process was killed")
    mon.nontrivial(was["displacement"])


def main(argv):
    base = argv[1]
    with open(os.path.join(base, "case.json"), encoding="utf-8") as file:
        case = json.load(file)
    s, n, m = case["s"], case["s"]["n"], case["stop"]
    path = os.path.join(base, "state")
    c = sut.C()
    try:
        loaded = c.st.State.load(path)
    except Exception as e:  # pylint: disable=broad-except
        print(type(e).__name__, e)
        sys.exit(77)
    if argv[0] == "die":
        loaded.displacement = loaded.displacement + 3.0
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (int(argv[2]), resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        try:
            loaded.save(path)
        except OSError:
            sys.exit(78)
        sys.exit(0)
    out = {"loaded_" + k: v for k, v in prints(loaded).items() if isinstance(v, np.ndarray)}
    out.update({"mesh_" + k: v for k, v in mesh_arrays(loaded.body.mesh).items()})
    out["entries"] = len(loaded.products["recorder"].data)
    _, _, solve = make(s)
    (end,) = solve(n - m, [n - m], state=loaded)
    out["end_displacement"], out["end_velocity"] = end.displacement, end.velocity
    np.savez(os.path.join(base, "out.npz"), **out)


if __name__ == "__main__":
    import vf.props.c13 as me

    me.main(sys.argv[1:])
