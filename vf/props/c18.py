"""Poisson problems: discrete equation, exactness, superposition and maximum principle."""
import contextlib
import io

import numpy as np

from vf import gen, ref, scen, sut
from vf.gen import f, rng_of

RULE = (
    "random 2D and 3D meshes, sources, fluxes and boundary values (smooth, piecewise, on touching, separate, partial and all sides); the equation "
    "is checked at every node without a prescribed value; affine data, linear combinations of data, source-free problems on non-obtuse "
    "meshes; non-trivial when the temperature is not constant"
)
REQUIRED = ["equation-2d", "equation-3d", "prescribed", "affine-2d", "affine-3d", "affine-flux", "superposition", "maximum", "piecewise", "partial-side", "sources", "fluxes", "repeatable", "large"]
ASSUMPTIONS = ["some part of the boundary has prescribed values"]
TOL = 1e-8
SIDES2 = ["left", "right", "top", "bottom", "left|right", "left|top", "left|right|top|bottom", "left:0:0.5|top:0.3:1", "bottom:0.25:0.8|right", "all", "top|bottom"]
SIDES3 = ["left", "left|right", "left|top", "back|front", "left|right|top|bottom|back|front", "all"]


def value_spec(rng, d):
    return {"c": f(rng.uniform(-2, 2), 3), "g": np.round(rng.uniform(-1, 1, d), 3).tolist(), "w": f(rng.choice([0.0, 0.7])), "step": f(rng.choice([0.0, 0.0, 1.5])), "at": f(rng.uniform(0.2, 0.8), 3), "axis": int(rng.integers(0, d))}


def value(spec, unit):
    def fn(x):
        x = np.asarray(x, dtype=float)
        v = spec["c"] + x @ np.array(spec["g"]) + spec["w"] * np.sin(3 * x[:, 0] + x[:, 1])
        if spec["step"]:
            v = v + np.array([spec["step"] if unit(p)[spec["axis"]] > spec["at"] else 0.0 for p in x])
        return v

    return fn


def load(rng, d):
    s = {"const": [f(rng.uniform(-3, 3), 3)]}
    if rng.random() < 0.6:
        s["lin"] = np.round(rng.uniform(-2, 2, (1, d)), 3).tolist()
    return s


def cases(tier, seed):
    k = 1 if tier == "quick" else 20
    out = []
    for i in range(160 * k):
        rng = rng_of("C18", seed, i)
        d = 3 if i % 4 == 3 else 2
        mesh = gen.mesh3(rng, 2) if d == 3 else gen.mesh2(rng, 6)
        big = i % 40 in (7, 10)
        if big:
            mesh = gen.large(mesh, i // 40)
        side = str(rng.choice(SIDES3 if d == 3 else SIDES2))
        if mesh["shape"] in ("single", "tet"):
            side = "all" if rng.random() < 0.5 else "bottom" if d == 2 else "back"
        out.append({"kind": f"equation-{d}d", "mode": "equation", "mesh": mesh, "d": d, "dirichlet": side, "v": value_spec(rng, d), "inner": load(rng, d), "outer": load(rng, d), "zero": int(rng.integers(0, 4)), "big": int(big), "w": 3 if big else 1})
    for i in range(60 * k):
        rng = rng_of("C18", seed, "affine", i)
        d = 3 if i % 3 == 2 else 2
        flux = i % 2
        mesh = gen.mesh3(rng, 2, shapes=["cube", "box"] if flux else None, wild=not flux) if d == 3 else gen.mesh2(rng, 5, shapes=["square", "delaunay", "square" if flux else "lshape", "hole"], wild=not flux)
        out.append({"kind": "affine", "mode": "affine", "mesh": mesh, "d": d, "flux": flux, "c": f(rng.uniform(-2, 2), 3), "g": np.round(rng.uniform(-2, 2, d), 3).tolist(), "w": 1})
    for i in range(40 * k):
        rng = rng_of("C18", seed, "super", i)
        d = 3 if i % 4 == 3 else 2
        out.append({"kind": "superposition", "mode": "super", "mesh": gen.mesh3(rng, 2, shapes=["cube", "lcube"]) if d == 3 else gen.mesh2(rng, 5, shapes=["square", "lshape", "hole", "delaunay"]), "d": d, "dirichlet": str(rng.choice(SIDES3 if d == 3 else SIDES2)), "data": [{"v": dict(value_spec(rng, d)), "inner": load(rng, d), "outer": load(rng, d)} for _ in range(2)], "ab": np.round(rng.uniform(-2, 2, 2), 3).tolist(), "w": 2})
    for i in range(50 * k):
        rng = rng_of("C18", seed, "max", i)
        mesh = gen.mesh2(rng, 6, shapes=["square", "lshape", "hole", "ushape"], wild=False)
        mesh["jitter"] = 0.0
        if rng.random() < 0.5:
            mesh["affine"] = np.round(gen.rotation(rng, 2), 9).tolist()
        out.append({"kind": "maximum", "mode": "max", "mesh": mesh, "d": 2, "dirichlet": str(rng.choice(SIDES2)), "v": dict(value_spec(rng, 2), w=f(rng.choice([0.0, 2.0]))), "w": 1})
    for i in range(2 * k):
        rng = rng_of("C18", seed, "jit", i)
        out.append({"kind": "equation-2d", "mode": "equation", "mesh": gen.mesh2(rng, 5, shapes=["square", "lshape"]), "d": 2, "dirichlet": "left|top", "v": value_spec(rng, 2), "inner": load(rng, 2), "outer": load(rng, 2), "zero": 0, "jit": 1})
    return out


def solve(mesh, d, side, fn, f_in, f_out):
    descr, _, _ = sut.descr(mesh)
    unit = sut.to_unit(mesh)
    ind = sut.region(side, unit)
    bnd = sut.C().BoundariesDescription(dirichlet=(ind, fn))
    problem = sut.poisson_problem(descr, bnd, lambda x, t=None: f_in(x), lambda x, t=None: f_out(x))
    solver = sut.C().ps.PoissonSolver(problem, "direct")
    with contextlib.redirect_stdout(io.StringIO()):
        st = solver.solve()
    return solver, st, ind


def zero(x):
    return np.array([0.0])


def run(case, mon):
    {"equation": run_equation, "affine": run_affine, "super": run_super, "max": run_max}[case["mode"]](case, mon)


def run_equation(case, mon):
    d = case["d"]
    unit = sut.to_unit(case["mesh"])
    fn = value(case["v"], unit)
    f_in = zero if case["zero"] == 1 else sut.vec_field(case["inner"], 1)
    f_out = zero if case["zero"] == 2 else sut.vec_field(case["outer"], 1)
    solver, st, ind = solve(case["mesh"], d, case["dirichlet"], fn, f_in, f_out)
    X, E = np.array(solver.body.mesh.nodes), np.array(solver.body.mesh.elements)
    fem = ref.Fem(X, E)
    faces = [fc for fc, _ in fem.boundary()]
    bn = sorted({v for fc in faces for v in fc})
    dn = np.array([v for v in bn if ind(X[v])], dtype=int)
    t = np.array(st.temperature, dtype=float)
    mon.close("prescribed", t[dn], fn(X[dn]), 1e-12, 1 + np.abs(fn(X[dn])).max(), case["dirichlet"])
    neumann = [fc for fc in faces if not ind(X[list(fc)].mean(axis=0))]
    vin = np.array([f_in(x) for x in X]).reshape(-1, 1)
    vout = np.array([f_out(x) for x in X]).reshape(-1, 1)
    b = (fem.body_load(vin) + fem.surface_load(neumann, vout)).ravel()
    L = fem.laplace()
    r = L @ t - b
    free = np.setdiff1d(np.arange(len(X)), dn)
    scale = np.abs(L).max() * (np.abs(t).max() + 1e-12) + np.abs(b).max()
    mon.close(f"equation-{d}d", r[free], np.zeros(len(free)), TOL, scale, f"sides {case['dirichlet']} residual at free nodes")
    if len(free) and case["zero"] != 1:
        mon.seen("sources")
    if neumann and case["zero"] != 2:
        mon.seen("fluxes")
    if case["v"]["step"]:
        mon.seen("piecewise")
    if ":" in case["dirichlet"]:
        mon.seen("partial-side")
    if case.get("big"):
        mon.seen("large")
    with contextlib.redirect_stdout(io.StringIO()):
        again = solver.solve()
    mon.close("repeatable", again.temperature, t, 1e-12, np.abs(t).max() + 1e-12, "second solve")
    if np.ptp(t) > 1e-6:
        mon.nontrivial(t)


def run_affine(case, mon):
    d = case["d"]
    g, c = np.array(case["g"]), case["c"]
    fn = lambda x: c + np.asarray(x) @ g
    if not case["flux"]:
        solver, st, _ = solve(case["mesh"], d, "all", fn, zero, zero)
        name = f"affine-{d}d"
        extra = "prescribed everywhere"
    else:
        # one flat side carries the flux of the affine field, the rest its values
        side = "right"
        unit = sut.to_unit(case["mesh"])
        normal = np.eye(d)[0]
        on = sut.region(side, unit)
        descr, _, _ = sut.descr(case["mesh"])
        bnd = sut.C().BoundariesDescription(dirichlet=(lambda x: not strictly(x, on, unit), fn))
        problem = sut.poisson_problem(descr, bnd, lambda x, t=None: zero(x), lambda x, t=None: np.array([g @ normal]))
        solver = sut.C().ps.PoissonSolver(problem, "direct")
        with contextlib.redirect_stdout(io.StringIO()):
            st = solver.solve()
        name, extra = "affine-flux", f"flux through the {side} side"
    X = np.array(solver.body.mesh.nodes)
    want = fn(X)
    mon.close(name, st.temperature, want, 1e-8, np.abs(want).max() + 1e-9, extra)
    mon.nontrivial(np.array(st.temperature))


def strictly(x, on, unit):
    """on the side, edges included for face centres: nodes on its rim stay prescribed"""
    if not on(x):
        return False
    y = unit(x)
    return all(1e-9 < y[k] < 1 - 1e-9 for k in range(1, len(y)))


def run_super(case, mon):
    d, (a, b) = case["d"], case["ab"]
    unit = sut.to_unit(case["mesh"])
    sols = []
    for data in case["data"]:
        _, st, _ = solve(case["mesh"], d, case["dirichlet"], value(data["v"], unit), sut.vec_field(data["inner"], 1), sut.vec_field(data["outer"], 1))
        sols.append(np.array(st.temperature))
    p, q = case["data"]
    fp, fq = value(p["v"], unit), value(q["v"], unit)
    ip, iq = sut.vec_field(p["inner"], 1), sut.vec_field(q["inner"], 1)
    op, oq = sut.vec_field(p["outer"], 1), sut.vec_field(q["outer"], 1)
    _, st, _ = solve(case["mesh"], d, case["dirichlet"], lambda x: a * fp(x) + b * fq(x), lambda x: a * ip(x) + b * iq(x), lambda x: a * op(x) + b * oq(x))
    want = a * sols[0] + b * sols[1]
    mon.close("superposition", st.temperature, want, 1e-8, np.abs(sols[0]).max() * abs(a) + np.abs(sols[1]).max() * abs(b) + 1e-9)
    mon.nontrivial(want)


def run_max(case, mon):
    unit = sut.to_unit(case["mesh"])
    fn = value(case["v"], unit)
    solver, st, ind = solve(case["mesh"], 2, case["dirichlet"], fn, zero, zero)
    X = np.array(solver.body.mesh.nodes)
    dn = [v for v in range(len(X)) if v in set(np.array(solver.body.mesh.boundary_indices).tolist() if not isinstance(solver.body.mesh.boundary_indices, slice) else range(len(X))) and ind(X[v])]
    vals = fn(X[dn])
    t = np.array(st.temperature)
    eps = 1e-9 * (1 + np.abs(vals).max())
    mon.check("maximum", bool(t.max() <= vals.max() + eps and t.min() >= vals.min() - eps), lambda: f"temperature in [{t.min():.9g}, {t.max():.9g}], boundary values in [{vals.min():.9g}, {vals.max():.9g}]")
    if np.ptp(vals) > 1e-6:
        mon.nontrivial(t)
