"""Methods, their names, initial guesses and the refusal of unknown ones."""
import contextlib
import io

import numpy as np

from vf import evo, gen, ref, scen, sut
from vf.core import Skip
from vf.gen import f, rng_of

RULE = (
    "random problems solved by every pair of methods under random spellings and letter cases, from several initial guesses and optimisers, and after "
    "switching the method of a solver; runs of every evolution type under both reductions; names a problem type does not have must be refused; "
    "non-trivial when the body moves and contact responds"
)
SCHUR = ("schur", "schur complement", "schur complement method")
GLOBAL = ("global", "global optimization")
DIRECT = ("direct",)
NAMES = {
    "static": (SCHUR, GLOBAL, DIRECT),
    "quasistatic": (SCHUR, GLOBAL),
    "relaxation": (SCHUR, GLOBAL),
    "dynamic": (SCHUR, GLOBAL),
    "temperature": (SCHUR, GLOBAL),
    "piezo_quasistatic": (SCHUR, GLOBAL),
    "piezo_dynamic": (SCHUR, GLOBAL),
    "wave": (SCHUR, GLOBAL),
}
KINDS = tuple(k for k in NAMES if k != "static")
REQUIRED = ["same-static", "guess", "optimiser", "switched", "refused", "name-kept", "contact-active", "step-solver", "direct-free", "guess-form", "guess-kept"] + [f"same-{k}" for k in KINDS] + [f"form-{k}" for k in ("float32", "int", "array", "list", "fortran", "nodes", "longdouble")] + [
    f"name-{n}" for n in SCHUR + GLOBAL + DIRECT
]
ASSUMPTIONS = [
    "laws are convex; contact sides and fixed sides do not touch (there the methods differ: recorded findings of C09 and C11)",
    "the direct method of dynamic problems is left out (recorded finding of C11)",
]
BAD = ("shur", " ", "gauss", "none", "schur complement methods", "glob", "directly", "newton", "global optimisation", "quasistatic")


def spelled(rng, names):
    n = str(rng.choice(names))
    how = int(rng.integers(0, 4))
    return n, (n, n.upper(), n.title(), "".join(c.upper() if rng.random() < 0.5 else c for c in n))[how]


def cases(tier, seed):
    n, ne, nb, nj = (45, 5, 24, 1) if tier == "quick" else (800, 80, 200, 10)
    out = []
    for i in range(n + nj):
        rng = rng_of("C10", seed, "static", i)
        con, dirich = scen.PARTITIONS[i % 2]
        if i % 9 == 8:
            con = "none"
        law = scen.law(rng, ("slope", "gap", "cubic", "adhesive", "friction"))
        s = {
            "mesh": scen.mesh2(rng, 3),
            "contact": con,
            "dirichlet": dirich,
            "law": law,
            "mu": gen.coef(rng, 1, 12),
            "la": gen.coef(rng, 1, 12),
            "inner": scen.load(rng, 2, 1.0),
            "outer": scen.load(rng, 2, 0.6),
            "opt": "BFGS",
        }
        if rng.random() < 0.4:
            s["c"] = [f(rng.uniform(-0.1, 0.1), 3), np.round(rng.uniform(-0.1, 0.1, 2), 3).tolist()]
        guesses = [{"const": np.round(rng.uniform(-0.2, 0.2, 2), 3).tolist(), "wave": f(rng.choice([0.0, 0.1]))} for _ in range(2)]
        groups = [g for g in NAMES["static"] if not (g is DIRECT and law["law"] == "friction")]
        runs = [list(spelled(rng, g)) for g in groups] + [list(spelled(rng, groups[int(rng.integers(0, len(groups)))]))]
        out.append({"kind": "static", "mode": "static", "s": s, "runs": runs, "guesses": guesses, "form": FORMS[i % len(FORMS)], "opt": str(rng.choice(["L-BFGS-B", "CG", "gradiented BFGS" if law["law"] != "friction" else "CG"])), "w": 6, "jit": int(i >= n)})
    for kind in KINDS:
        for i in range(ne if kind not in evo.COUPLED else max(2, ne // 2 + 1)):
            rng = rng_of("C10", seed, kind, i)
            if kind == "wave":
                s = evo.wave_spec(rng, "boundary")
                s["mesh"] = scen.mesh2(rng, 3)
                s["dirichlet"] = str(rng.choice(["left", "top"]))
                s["contact"] = {"left": "right", "top": "bottom"}[s["dirichlet"]]
            else:
                s = evo.spec(rng, kind, laws=("slope", "gap", "adhesive", "friction", "evolving"), nmax=2)
                s["contact"], s["dirichlet"] = scen.PARTITIONS[int(rng.integers(0, 2))]
                if kind.startswith("piezo"):
                    s["piezo_dirichlet"] = s["dirichlet"]
            s["n"] = 3
            out.append({"kind": kind, "mode": "run", "s": s, "runs": [list(spelled(rng, g)) for g in NAMES[kind]], "w": 12})
    for i in range(4 if tier == "quick" else 40):
        rng = rng_of("C10", seed, "free", i)
        s = evo.wave_spec(rng, "free")
        s["n"] = 3
        out.append({"kind": "wave-free", "mode": "free", "s": s, "w": 1})
    kinds = list(NAMES)
    for i in range(nb):
        rng = rng_of("C10", seed, "bad", i)
        kind = kinds[i % len(kinds)]
        if kind == "static":
            s = {"mesh": scen.mesh2(rng, 2), "contact": "bottom", "dirichlet": "top", "law": {"law": "slope", "p": 3.0}, "mu": 3.0, "la": 2.0, "inner": scen.load(rng, 2), "outer": scen.load(rng, 2)}
        else:
            s = evo.wave_spec(rng, "boundary") if kind == "wave" else evo.spec(rng, kind, nmax=2)
        s["kind"] = kind
        bad = [str(b) for b in rng.choice(BAD, 3, replace=False)]
        if kind in ("quasistatic", "relaxation", "piezo_quasistatic"):
            bad.append(str(rng.choice(["direct", "Direct", "DIRECT"])))
        out.append({"kind": "refused", "mode": "refused", "s": s, "bad": bad, "w": 0.5})
    return out


def run(case, mon):
    {"static": run_static, "run": run_run, "free": run_free, "refused": run_refused}[case["mode"]](case, mon)


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def static_solver(s, name):
    sc = scen.Scenario(s)
    solver = sut.C().ps.StaticSolver(sut.static_problem(sc.descr, sc.bnd, s["mu"], s["la"], sc.law, sc.inner, sc.outer), name)
    sc.bind(solver.body.mesh)
    return sc, solver


def static_solve(sc, solver, guess, opt="BFGS"):
    g = scen.field(guess, 2)
    verbose = bool(sum(abs(v) for v in guess["const"]) * 1000 % 2 >= 1)
    return ref.stack(np.array(quiet(solver.solve, initial_displacement=g, method=opt, verbose=verbose).displacement, dtype=float))


FORMS = ("float32", "int", "array", "list", "fortran", "nodes", "longdouble")


def formed(form, nodes, guess):
    """(initial_displacement, arrays that stay the caller's) with the guess in another container or element type"""
    g = scen.field(guess, 2)
    if form == "float32":
        return (lambda x: g(x).astype(np.float32)), []
    if form == "longdouble":
        return (lambda x: g(x).astype(np.longdouble)), []
    if form == "int":
        return (lambda x: np.rint(5 * g(x)).astype(int)), []
    if form == "fortran":
        mine = np.asfortranarray(g(nodes))
        return (lambda x: mine), [mine]
    if form == "nodes":
        return (lambda x: x), []
    mine = np.array(g(nodes))
    return (mine if form == "array" else mine.tolist()), [mine]


def run_static(case, mon):
    s = case["s"]
    first = None
    kept = {}
    for k, (name, text) in enumerate(case["runs"]):
        sc, solver = static_solver(s, text)
        A = sc.fem.elasticity(s["mu"], s["la"])
        u = static_solve(sc, solver, case["guesses"][0])
        mon.seen(f"name-{name}")
        if first is None:
            first, lead = u, text
            size = np.sqrt(max(u @ A @ u, 0.0)) + 1e-9
            size = max(size, np.sqrt(energy_scale(sc, A)))
        else:
            gap(mon, "same-static", u - first, A, size, TOL, f"'{text}' against '{lead}' ({s['law']['law']})")
        kept[name] = (sc, solver)
        if k == case_pick(case):
            v = static_solve(sc, solver, case["guesses"][1])
            gap(mon, "guess", v - u, A, size, TOL, f"'{text}' from another initial guess ({s['law']['law']})")
            if name != "direct":
                w = static_solve(sc, solver, case["guesses"][1], case["opt"])
                gap(mon, "optimiser", w - u, A, size, 4 * TOL, f"'{text}' with {case['opt']} ({s['law']['law']})")
            form = case["form"]
            nodes = np.array(solver.body.mesh.nodes)
            given, mine = formed(form, nodes, case["guesses"][1])
            copies = [m.copy() for m in mine]
            mon.seen(f"form-{form}")
            z = ref.stack(np.array(quiet(solver.solve, initial_displacement=given, method="BFGS").displacement, dtype=float))
            gap(mon, "guess-form", z - u, A, size, TOL, f"'{text}' from a guess given as {form} ({s['law']['law']})")
            mon.check("guess-kept", np.array_equal(nodes, solver.body.mesh.nodes) and all(np.array_equal(m, c) for m, c in zip(mine, copies)), f"a guess given as {form}: solving changed the caller's array or the mesh nodes")
            # what the solver says it uses is a name that gives the same method
            said = solver.solving_method
            family = [g for g in (SCHUR, GLOBAL, DIRECT) if name in g][0]
            mon.check("name-kept", said.lower() in family, f"'{text}' is reported as '{said}'")
            before = type(solver.step_solver)
            solver.refresh_solvers()
            mon.check("name-kept", type(solver.step_solver) is before, f"refreshing a '{text}' solver made it {type(solver.step_solver).__name__}")
            gap(mon, "switched", static_solve(sc, solver, case["guesses"][0]) - u, A, size, TOL, f"'{text}' after refresh")
            other = case["runs"][(k + 1) % len(case["runs"])][1]
            solver.solving_method = other
            mon.check("name-kept", solver.solving_method.lower() == str(type_name(other)), f"switched to '{other}', reported as '{solver.solving_method}'")
            gap(mon, "switched", static_solve(sc, solver, case["guesses"][0]) - u, A, size, TOL, f"switched from '{text}' to '{other}'")
    on = 0
    U = first.reshape(2, -1).T
    for fc, nrm in zip(sc.contact_faces, sc.normals):
        on += sum(float(U[v] @ nrm) > float(s["law"].get("g", 0.0)) for v in fc)
    mon.seen("contact-active", on)
    if np.abs(first).max() > 1e-7:
        mon.nontrivial(first)


TOL = 1e-3


def energy_scale(sc, A):
    b = sc.force(0.0)
    free = np.setdiff1d(np.arange(2 * sc.n), sc.fixed)
    return float(abs(b[free] @ np.linalg.solve(A[np.ix_(free, free)], b[free])))


def type_name(text):
    low = text.lower()
    return "schur" if low in SCHUR else "global optimization" if low in GLOBAL else "direct"


def case_pick(case):
    return case["s"]["mesh"]["seed"] % len(case["runs"])


def gap(mon, name, e, A, size, tol, detail):
    mon.le(name, float(np.sqrt(max(float(e @ A @ e), 0.0))), tol * size, detail)


def run_run(case, mon):
    s = case["s"]
    traces = []
    for name, text in case["runs"]:
        ev = evo.Evo(s)
        solver = ev.make_solver(text)
        if s["kind"] in evo.COUPLED and not traces:
            ev.bind2()
            rho = ev.contraction()
            if rho > 0.3:
                raise Skip(f"staggered iteration contracts only by {rho:.2f}")
        mon.seen(f"name-{name}")
        states = ev.run(solver, s["n"])
        traces.append([evo.Snap(x) for x in states])
        mon.check("step-solver", type_name(solver.solving_method) == type_name(text), f"'{text}' is reported as '{solver.solving_method}'")
        if solver.second_step_solver is not None:
            mon.check("step-solver", str(solver.second_step_solver) == str(solver.step_solver), f"'{text}': second unknown solved by {solver.second_step_solver}")
    a, b = traces
    tol = 5e-3 if s["kind"] not in evo.COUPLED else 2e-2
    for name in ("displacement", "velocity", "absement", "temperature", "electric_potential"):
        if getattr(a[0], name) is None:
            continue
        size = max(np.abs(getattr(x, name)).max() for x in a) + 1e-9
        for k, (x, y) in enumerate(zip(a, b)):
            mon.close(f"same-{s['kind']}", getattr(y, name), getattr(x, name), tol, size, f"{name} of step {k + 1}: '{case['runs'][1][1]}' against '{case['runs'][0][1]}' ({(s.get('law') or {}).get('law')})")
    on, _ = ev.contact_active(a[-2], a[-1])
    mon.seen("contact-active", on)
    if np.abs(a[-1].displacement).max() > 1e-9:
        mon.nontrivial(a[-1].displacement)


def run_free(case, mon):
    """a membrane without contact: the direct method under any letter case"""
    s = case["s"]
    out = []
    for text in ("direct", "DIRECT", "Direct"):
        ev = evo.Evo(s)
        solver = ev.make_solver(text)
        out.append(ev.run(solver, s["n"])[-1])
        mon.seen("name-direct")
    for st in out[1:]:
        mon.close("direct-free", st.displacement, out[0].displacement, 1e-9, np.abs(out[0].displacement).max() + 1e-12, "direct under another letter case")
    mon.nontrivial(out[0].displacement)


def run_refused(case, mon):
    s = case["s"]
    for text in case["bad"]:
        try:
            if s["kind"] == "static":
                _, solver = static_solver(s, text)
            else:
                solver = evo.Evo(s).make_solver(text)
            got = f"built a solver using {type(solver.step_solver).__name__}"
        except Exception:  # refused, however it says so
            got = None
        mon.check("refused", got is None, f"{s['kind']} problem accepts the method '{text}' and {got}")
        mon.nontrivial("refused", s["kind"], text)
    # a refused switch leaves the solver as it was
    if s["kind"] == "static":
        _, solver = static_solver(s, "schur")
    else:
        solver = evo.Evo(s).make_solver("schur" if s["method"] != "global" else "global")
    before = type(solver.step_solver)
    try:
        solver.solving_method = case["bad"][0]
        mon.check("refused", False, f"switching a {s['kind']} solver to '{case['bad'][0]}' is accepted: {type(solver.step_solver).__name__}")
    except Exception:
        mon.check("refused", type(solver.step_solver) is before, "a refused switch changed the method")
