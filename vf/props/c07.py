"""Loads enter the equations with the user's field, at the nodes and at the queried time."""
import contextlib
import io

import numpy as np

from vf import evo, gen, ref, scen, sut
from vf.gen import f, rng_of

RULE = (
    "random 2D/3D meshes, partitions and load fields with recording callbacks, queried at random sequences of times (repeated, returning, "
    "nearly equal); the load vector is compared with independent quadrature and exact resultants; non-trivial when the vector is not zero"
)
REQUIRED = ["vector", "body-resultant", "surface-resultant", "neumann-only", "evaluated-at-nodes", "evaluated-at-time", "returning-time", "superposition", "run-times", "3d", "membrane", "poisson", "default-loads", "static-solution"]
ASSUMPTIONS = ["surface loads at a node act through the Neumann faces around it"]


def amplitude(kind, t):
    t = 0.0 if t is None else float(t)
    if kind == "wild":  # tells any two different times apart
        return 0.1 + (np.floor(t * 1e12) * 0.61803398875) % 1.0
    if kind == "lin":
        return 1.0 + t
    return float(np.cos(3 * t))


def field(spec, d):
    c = np.array(spec["const"], dtype=float)
    L = np.array(spec["lin"], dtype=float)
    amp = spec["amp"]
    return lambda x, t=None: (c + L @ np.asarray(x)[: L.shape[1]]) * amplitude(amp, t)


def fspec(rng, comps, d):
    if rng.random() < 0.12:
        return {"const": [0.0] * comps, "lin": np.zeros((comps, d)).tolist(), "amp": "lin"}
    return {
        "const": np.round(rng.uniform(-2, 2, comps), 3).tolist(),
        "lin": (np.round(rng.uniform(-2, 2, (comps, d)), 3) * int(rng.random() < 0.7)).tolist(),
        "amp": str(rng.choice(["wild", "wild", "lin", "cos"])),
    }


def times(rng):
    base = [0.0, f(rng.uniform(0, 2), 4), f(rng.uniform(2, 2000), 3)]
    t = []
    for _ in range(int(rng.integers(4, 9))):
        if t and rng.random() < 0.3:
            t.append(t[int(rng.integers(0, len(t)))])
        elif t and rng.random() < 0.5:
            t.append(t[-1] * (1 + 1e-7) + float(rng.choice([1e-9, 1e-6, 1e-3])))
        else:
            t.append(float(rng.choice(base)))
    return t


KINDS = ["mech2", "mech2", "mech2", "mech3", "wave", "poisson", "quasi"]
PARTS2 = [("bottom", "top"), ("none", "none"), ("right", "left"), ("none", "left|right|top|bottom"), ("bottom", "none"), ("bottom:0:0.5", "left"), ("none", "top")]
PARTS3 = [("bottom", "top"), ("none", "none"), ("left", "right"), ("none", "left")]


def cases(tier, seed):
    n, nr, nd, ns, nj = (160, 16, 12, 24, 3) if tier == "quick" else (4000, 250, 100, 300, 20)
    out = []
    for i in range(n + nj):
        rng = rng_of("C07", seed, i)
        kind = KINDS[i % len(KINDS)]
        d = 3 if kind == "mech3" else 2
        comps = 1 if kind in ("wave", "poisson") else d
        parts = PARTS3 if d == 3 else PARTS2
        con, dirich = parts[int(rng.integers(0, len(parts)))]
        case = {"kind": kind, "mode": "vector", "mesh": gen.mesh3(rng, 2) if d == 3 else gen.mesh2(rng, 4), "contact": con, "dirichlet": dirich}
        if i % 32 == 7:
            case["mesh"] = gen.large(case["mesh"], i // 32)
        case.update({"inner": fspec(rng, comps, d), "outer": fspec(rng, comps, d), "times": times(rng), "w": 1, "jit": int(i >= n)})
        out.append(case)
    for i in range(nr):
        rng = rng_of("C07", seed, "run", i)
        kind = ("quasistatic", "dynamic", "relaxation", "wave", "temperature", "piezo_quasistatic", "piezo_dynamic", "wave")[i % 8]
        s = evo.wave_spec(rng, "boundary") if kind == "wave" else evo.spec(rng, kind, method="schur", laws=("slope", "gap"), nmax=2)
        s["method"], s["n"] = "schur", int(rng.integers(2, 5))
        if s["contact"] == "none":
            s["contact"] = "bottom"
        out.append({"kind": f"run-{kind}", "mode": "run", "s": s, "w": 3})
    for i in range(nd):
        rng = rng_of("C07", seed, "default", i)
        out.append({"kind": "default", "mode": "default", "which": KINDS[i % len(KINDS)], "mesh": scen.mesh2(rng, 3), "mesh3": gen.mesh3(rng, 1), "w": 1})
    for i in range(ns):
        rng = rng_of("C07", seed, "static", i)
        d = 3 if i % 3 == 2 else 2
        con, dirich = ("none", "left")
        out.append({"kind": f"static{d}", "mode": "static", "d": d, "mesh": gen.mesh3(rng, 2, shapes=["cube", "box", "lcube"]) if d == 3 else scen.mesh2(rng, 4), "contact": con, "dirichlet": dirich, "inner": fspec(rng, d, d), "outer": fspec(rng, d, d), "mu": gen.coef(rng), "la": gen.coef(rng), "w": 1})
    return out


def run(case, mon):
    {"vector": vector, "run": run_times, "default": default, "static": static}[case["mode"]](case, mon)


def build(kind, mesh, con, dirich, inner, outer):
    descr, _, _ = sut.descr(mesh)
    unit = sut.to_unit(mesh)
    bnd = sut.boundaries({"contact": con, "dirichlet": dirich}, unit)
    law = sut.law({"law": "none"})
    ps = sut.C().ps
    if kind in ("mech2", "mech3"):
        # no method that factorises the (possibly singular) matrix is used here
        solver = ps.StaticSolver(sut.static_problem(descr, bnd, 2.0, 3.0, law, inner, outer), "global")
        load = solver.body.dynamics.force
    elif kind == "quasi":
        solver = ps.TimeDependentSolver(sut.evolution_problem("quasistatic", descr, bnd, 2.0, 3.0, 1.0, 1.0, 0.1, law, inner, outer), "global")
        load = solver.body.dynamics.force
    elif kind == "wave":
        solver = ps.WaveSolver(sut.wave_problem(descr, bnd, 1.0, 0.1, law(), inner, outer), "global")
        load = solver.body.dynamics.force
    else:
        solver = ps.PoissonSolver(sut.poisson_problem(descr, bnd, inner, outer), "direct")
        load = solver.body.dynamics.temperature
    return solver, load, sut.region(con, unit), sut.region(dirich, unit)


def geometry(mesh, is_c, is_d):
    X, E = np.array(mesh.nodes, dtype=float), np.array(mesh.elements)
    fem = ref.Fem(X, E)
    neumann = []
    for fc, _ in fem.boundary():
        m = X[list(fc)].mean(axis=0)
        if not is_c(m) and not is_d(m):
            neumann.append(fc)
    return X, E, fem, neumann


def values(fn, X, t, comps):
    return np.array([np.atleast_1d(fn(x, t)) for x in X], dtype=float).reshape(len(X), comps)


def expected(fem, X, neumann, fin, fout, t, comps):
    return ref.stack(fem.body_load(values(fin, X, t, comps)) + fem.surface_load(neumann, values(fout, X, t, comps)))


def vector(case, mon):
    kind = case["kind"]
    d = 3 if kind == "mech3" else 2
    comps = 1 if kind in ("wave", "poisson") else d
    fin, fout = field(case["inner"], d), field(case["outer"], d)
    calls = []

    def inner(x, t=None, *, v=None):
        calls.append(("in", tuple(np.asarray(x, dtype=float)), t))
        return fin(x, t)

    def outer(x, t=None, *, v=None):
        calls.append(("out", tuple(np.asarray(x, dtype=float)), t))
        return fout(x, t)

    solver, load, is_c, is_d = build(kind, case["mesh"], case["contact"], case["dirichlet"], inner, outer)
    X, E, fem, neumann = geometry(solver.body.mesh, is_c, is_d)
    mon.seen({"mech3": "3d", "wave": "membrane", "poisson": "poisson"}.get(kind, "2d"))
    where = {tuple(x) for x in X}
    on_n = sorted({v for fc in neumann for v in fc})
    vol, area = fem.vol, [ref.face_size(X, fc) for fc in neumann]
    queried = []
    for t in case["times"]:
        calls.clear()
        got = np.asarray(load.integrate(time=t), dtype=float).ravel()
        want = expected(fem, X, neumann, fin, fout, t, comps)
        scale = np.abs(ref.stack(fem.body_load(np.abs(values(fin, X, t, comps))))).max() + np.abs(ref.stack(fem.surface_load(neumann, np.abs(values(fout, X, t, comps))))).max(initial=0) + 1e-30
        mon.close("vector", got, want, 1e-9, scale, f"load vector at time {t!r}")
        if t in queried:
            mon.seen("returning-time")
        queried.append(t)
        for which, x, tt in calls:
            mon.check("evaluated-at-time", tt == t, f"{which} load evaluated at {tt!r} when asked for {t!r}")
            mon.check("evaluated-at-nodes", x in where, f"{which} load evaluated at {x}, which is not a node")
        # exact resultants of the affine fields, component by component
        a = amplitude(case["inner"]["amp"], t)
        cin, Lin = np.array(case["inner"]["const"]), np.array(case["inner"]["lin"])
        body = a * sum(v * (cin + Lin @ X[e].mean(axis=0)) for v, e in zip(vol, E))
        b = amplitude(case["outer"]["amp"], t)
        cout, Lout = np.array(case["outer"]["const"]), np.array(case["outer"]["lin"])
        surf = b * sum((s * (cout + Lout @ X[list(fc)].mean(axis=0)) for s, fc in zip(area, neumann)), np.zeros(comps))
        tot = np.array([got[k * len(X) : (k + 1) * len(X)].sum() for k in range(comps)])
        mon.close("body-resultant", tot - surf, body, 1e-9, scale * len(X), f"time {t!r}")
        mon.close("surface-resultant", tot - body, surf, 1e-9, scale * len(X), f"time {t!r}")
        if np.abs(want).max() > 0:
            mon.nontrivial(want)
    # parts: surface loads reach only nodes of Neumann faces
    solver2, load2, _, _ = build(kind, case["mesh"], case["contact"], case["dirichlet"], lambda x, t=None, v=None: 0 * np.atleast_1d(fin(x, t)), outer)
    solver3, load3, _, _ = build(kind, case["mesh"], case["contact"], case["dirichlet"], inner, lambda x, t=None, v=None: 0 * np.atleast_1d(fout(x, t)))
    t = case["times"][0]
    only = np.asarray(load2.integrate(time=t), dtype=float).reshape(comps, -1)
    rest = np.setdiff1d(np.arange(len(X)), on_n)
    mon.check("neumann-only", float(np.abs(only[:, rest]).max(initial=0)) == 0.0, "surface load at a node without Neumann face")
    both = np.asarray(load.integrate(time=t), dtype=float).ravel()
    parts = only.ravel() + np.asarray(load3.integrate(time=t), dtype=float).ravel()
    mon.close("superposition", both, parts, 1e-9, np.abs(parts).max() + 1e-30, "inner + outer")


def run_times(case, mon):
    """during runs, repeated with the same solver, the loads are those of the steps"""
    s = case["s"]
    ev = evo.Evo(s)
    seen = []
    f_in, f_out = ev.f_in, ev.f_out
    ev.f_in = lambda x, t=None: (seen.append(t), f_in(x, t))[1]
    solver = ev.make_solver()
    ev.f_in = f_in
    for repeat in range(2):
        ev.f_in = lambda x, t=None: (seen.append(t), f_in(x, t))[1]
        seen.clear()
        states = ev.run(solver, s["n"])
        ev.f_in = f_in
        used = sorted({0.0 if t is None else float(t) for t in seen})
        allowed = [k * s["dt"] for k in range(s["n"] + 1)]
        mon.check("run-times", all(min(abs(u - a) for a in allowed) < 1e-9 for u in used), f"run {repeat + 1}: loads evaluated at {used}, steps at {allowed}")
        # the vector left by the run belongs to the time asked for, whatever was asked before
        for t in (0.0, s["dt"], s["n"] * s["dt"]):
            got = np.asarray(solver.body.dynamics.force.integrate(time=t), dtype=float).ravel()
            want = ev.force(t, s.get("fd", 2))
            mon.close("vector", got, want, 1e-9, np.abs(want).max() + 1e-12, f"after run {repeat + 1}, time {t}")
    mon.nontrivial(states[-1].velocity)


def default(case, mon):
    """problems without given loads are unloaded"""
    kind = case["which"]
    mesh = case["mesh3"] if kind == "mech3" else case["mesh"]
    solver, load, _, _ = build(kind, mesh, "none", "left" if kind != "mech3" else "none", None, None)
    for t in (0.0, 0.3):
        got = np.asarray(load.integrate(time=t), dtype=float).ravel()
        n = len(solver.body.mesh.nodes) * (1 if kind in ("wave", "poisson") else 3 if kind == "mech3" else 2)
        mon.check("default-loads", got.shape == (n,) and float(np.abs(got).max()) == 0.0, f"default load vector of {kind}: shape {got.shape}, max {np.abs(got).max()}")


def static(case, mon):
    """the loads as seen through the solution: stiffness times solution on the free nodes"""
    d = case["d"]
    fin, fout = field(case["inner"], d), field(case["outer"], d)
    descr, _, _ = sut.descr(case["mesh"])
    unit = sut.to_unit(case["mesh"])
    bnd = sut.boundaries({"contact": case["contact"], "dirichlet": case["dirichlet"]}, unit)
    p = sut.static_problem(descr, bnd, case["mu"], case["la"], None, lambda x, t=None, v=None: fin(x, t), lambda x, t=None, v=None: fout(x, t))
    solver = sut.C().ps.StaticSolver(p, "direct")
    with contextlib.redirect_stdout(io.StringIO()):
        st = solver.solve(initial_displacement=lambda x: np.zeros_like(x))
    is_c, is_d = sut.region(case["contact"], unit), sut.region(case["dirichlet"], unit)
    X, E, fem, neumann = geometry(solver.body.mesh, is_c, is_d)
    want = expected(fem, X, neumann, fin, fout, 0.0, d)
    K = fem.elasticity(case["mu"], case["la"])
    bn = {v for fc, _ in fem.boundary() for v in fc}
    fixed = np.array([v + k * len(X) for k in range(d) for v in bn if is_d(X[v])], dtype=int)
    free = np.setdiff1d(np.arange(d * len(X)), fixed)
    r = (K @ ref.stack(st.displacement))[free]
    mon.close("static-solution", r, want[free], 1e-7, np.abs(want).max() + np.abs(K).max() * np.abs(st.displacement).max() * 1e-3 + 1e-30, "internal forces equal the loads")
    mon.nontrivial(want)
