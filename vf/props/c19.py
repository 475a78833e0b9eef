"""Library contact laws: potential and response pairs, obstacle, monotonicity, compilation, independence."""
import contextlib
import io

import numpy as np

from vf import gen, ref, scen, sut
from vf.gen import f, rng_of

RULE = (
    "random parameters and constructions in random order; every law evaluated at random arguments of both signs and at the obstacle, before and "
    "after other laws are made, interpreted and compiled, as class and as instance, and inside interleaved static solves; non-trivial when the law responds"
)
REQUIRED = ["derivative", "before-obstacle", "monotone-argument", "monotone-parameter", "definition", "compiled", "independent", "pure", "bounds", "slope", "dnc", "dnc-interior", "const", "solve-independent", "solve-monotone", "instance"]
ASSUMPTIONS = ["parameters are non-negative, obstacle levels arbitrary"]
FINDING = "const-law-potential"


def law_spec(rng, kind):
    p = f(rng.choice([0.0, np.exp(rng.uniform(-3, 6))]), 5) if rng.random() < 0.2 else f(np.exp(rng.uniform(-3, 6)), 5)
    s = {"kind": kind, "p": p}
    if kind.startswith("dnc"):
        s["level"] = f(rng.uniform(-1, 1), 4)
        s["beta"] = f(rng.choice([0.0, rng.uniform(0, 3)]), 4)
    return s


KINDS = ("slope", "dnc", "dnc-interior", "const")


def make(s):
    from conmech.dynamics.contact.constant_constact_law import make_const_contact_law
    from conmech.dynamics.contact.damped_normal_compliance import make_damped_norm_compl
    from conmech.dynamics.contact.relu_slope_contact_law import make_slope_contact_law

    if s["kind"] == "slope":
        return make_slope_contact_law(slope=s["p"])
    if s["kind"] == "const":
        return make_const_contact_law(resistance=s["p"])
    return make_damped_norm_compl(obstacle_level=s["level"], kappa=s["p"], beta=s["beta"], interior=s["kind"] == "dnc-interior")


def points(rng, s, n=14):
    """(velocity, displacement, time step) with some exactly at the obstacle"""
    out = []
    for _ in range(n):
        v = float(rng.choice([0.0, rng.normal(), rng.normal() * 1e-3, rng.normal() * 50]))
        u = float(rng.choice([0.0, rng.normal()]))
        dt = float(rng.choice([0.0, 0.01, 0.1, 1.0]))
        if s["kind"].startswith("dnc") and rng.random() < 0.25:
            u = s["level"] - v * dt
        out.append((v, u, dt))
    return out


def cases(tier, seed):
    n, nj, ns = (260, 4, 16) if tier == "quick" else (6000, 40, 200)
    out = []
    for i in range(n):
        rng = rng_of("C19", seed, i)
        out.append({"kind": "laws", "laws": [law_spec(rng, str(rng.choice(KINDS))) for _ in range(int(rng.integers(2, 7)))], "seed": int(rng.integers(0, 2**31)), "w": 0.3})
    for i in range(nj):
        rng = rng_of("C19", seed, "jit", i)
        out.append({"kind": "compiled", "laws": [law_spec(rng, k) for k in KINDS] + [law_spec(rng, KINDS[i % 4])], "seed": int(rng.integers(0, 2**31)), "jit": 1, "w": 4})
    for i in range(ns + 2):
        rng = rng_of("C19", seed, "solve", i)
        con, dirich = scen.PARTITIONS[i % 2]
        s = {"mesh": scen.mesh2(rng, 3), "contact": con, "dirichlet": dirich, "mu": gen.coef(rng, 1, 12), "la": gen.coef(rng, 1, 12), "inner": {"const": np.round(rng.uniform(-2, 2, 2), 3).tolist()}, "outer": scen.load(rng, 2, 0.5), "method": ("schur", "direct", "schur")[i % 3]}
        out.append({"kind": "solve", "s": s, "p": sorted(f(np.exp(rng.uniform(-1, 5)), 4) for _ in range(3)), "order": rng.permutation(3).tolist(), "jit": int(i >= ns), "w": 3})
    return out


def run(case, mon):
    {"laws": run_laws, "compiled": run_compiled, "solve": run_solve}[case["kind"]](case, mon)


def level(s, v, u, dt):
    """distance beyond the obstacle"""
    return u + v * dt - s["level"] if s["kind"].startswith("dnc") else v


def definition(s, v, u, dt):
    """(potential, response) the law stands for"""
    pen = level(s, v, u, dt)
    p = s["p"]
    if s["kind"] == "slope":
        return (0.5 * p * v * v, p * v) if v > 0 else (0.0, 0.0)
    if s["kind"] == "const":
        return (None, p) if v > 0 else (0.0, 0.0)
    if abs(pen) < 1e-12:
        return None, None
    return (p * pen + s["beta"] * v, p * dt + s["beta"]) if pen >= 0 else (0.0, 0.0)


def everything(law, pts):
    return [
        [float(fn(v, u, dt)) for fn in (law.potential_normal_direction, law.subderivative_normal_direction, law.normal_bound, law.tangential_bound)]
        for v, u, dt in pts
    ]


def judge(mon, s, law, pts, tag):
    k = s["kind"]
    mon.seen(k)
    pot, sub = law.potential_normal_direction, law.subderivative_normal_direction
    responds = False
    for v, u, dt in pts:
        pen = level(s, v, u, dt)
        P, R = float(pot(v, u, dt)), float(sub(v, u, dt))
        scale = 1 + abs(P) + abs(R) + s["p"] * (1 + abs(v) + abs(u)) ** 2
        # the recorded defect: the potential is multiplied by the static displacement
        finding = FINDING if k == "const" and abs(P - (s["p"] * v * u if v > 0 else 0.0)) <= 1e-12 * scale else None
        h = 1e-6 * max(1.0, abs(v))
        if abs(pen) > 10 * h * max(1.0, dt):
            fd = (float(pot(v + h, u, dt)) - float(pot(v - h, u, dt))) / (2 * h)
            mon.close("derivative", R, fd, 1e-6, scale, f"{tag} {s} at v={v} u={u} dt={dt}", finding)
        if pen < -1e-12 or (pen <= 0 and k in ("slope", "const")):
            mon.check("before-obstacle", P == 0 and R == 0, f"{tag} {s}: response {P}, {R} at v={v} u={u} dt={dt} before the obstacle")
        dp, dr = definition(s, v, u, dt)
        if dp is not None:
            mon.close("definition", P, dp, 1e-10, scale, f"{tag} {s} potential at {v, u, dt}")
        if dr is not None:
            mon.close("definition", R, dr, 1e-10, scale, f"{tag} {s} response at {v, u, dt}")
        responds |= P != 0 or R != 0
        # bounds multiply potentials; those that a law does not define are one
        nb, tb = float(law.normal_bound(v, u, dt)), float(law.tangential_bound(v, u, dt))
        mon.close("bounds", nb, 0.5 * v if k.startswith("dnc") else 1.0, 1e-12, 1 + abs(v), f"{tag} {s} normal bound")
        mon.close("bounds", tb, 1.0, 1e-12, 1.0, f"{tag} {s} tangential bound")
        mon.close("bounds", float(law.potential_tangential_direction(np.array([v, u]), np.array([0.0, 0.0]), dt)), 0.0, 1e-12, 1.0, f"{tag} {s} friction")
    # growth along the argument
    rows = sorted((p[0] for p in pts))
    _, u, dt = pts[0]
    if k == "slope":
        vals = [float(sub(v, u, dt)) for v in rows]
        vals2 = [float(pot(v, u, dt)) for v in rows]
        mon.check("monotone-argument", all(a <= b + 1e-12 for a, b in zip(vals, vals[1:])), f"{tag} {s}: response falls along {rows}")
        mon.check("monotone-argument", all(a <= b + 1e-12 for a, b in zip(vals2, vals2[1:])), f"{tag} {s}: potential falls along {rows}")
    elif k.startswith("dnc"):
        up = sorted(s["level"] + abs(p[1]) + 1e-9 for p in pts)
        vals = [float(pot(0.5, x, dt)) for x in up]
        mon.check("monotone-argument", all(a <= b + 1e-9 * (1 + abs(a)) for a, b in zip(vals, vals[1:])), f"{tag} {s}: response falls with penetration")
    return responds


def run_laws(case, mon):
    rng = np.random.default_rng(case["seed"])
    made = []
    for s in case["laws"]:
        law = make(s)
        pts = points(rng, s)
        if judge(mon, s, law, pts, "fresh"):
            mon.nontrivial(repr(s))
        made.append((s, law, pts, everything(law, pts)))
    for i in rng.permutation(len(made)):
        s, law, pts, first = made[i]
        mon.check("independent", everything(law, pts) == first, f"{s}: other laws changed its values")
        mon.check("pure", everything(law, pts) == everything(law, pts), f"{s}: evaluation has side effects")
        if s["kind"].startswith("dnc"):
            inst = law()
            mon.check("instance", everything(inst, pts) == first, f"{s}: instance and class differ")
            mon.check("instance", (inst.kappa, inst.beta, inst.obstacle_level) == (s["p"], s["beta"], s["level"]), f"{s}: parameters {inst.kappa}, {inst.beta}, {inst.obstacle_level}")
        # a stronger law of the same kind
        q = dict(s, p=s["p"] * 1.7 + 0.3)
        more = make(q)
        for v, u, dt in pts:
            a, b = float(law.subderivative_normal_direction(v, u, dt)), float(more.subderivative_normal_direction(v, u, dt))
            mon.check("monotone-parameter", b >= a - 1e-12, f"{s['kind']}: response falls from {a} to {b} when the parameter grows")
            if s["kind"] != "const" and level(s, v, u, dt) >= 0:
                a, b = float(law.potential_normal_direction(v, u, dt)), float(more.potential_normal_direction(v, u, dt))
                mon.check("monotone-parameter", b >= a - 1e-9 * (1 + abs(a)), f"{s['kind']}: potential falls from {a} to {b} when the parameter grows")
        mon.check("independent", everything(law, pts) == first, f"{s}: a later law of the same kind changed its values")


def run_compiled(case, mon):
    """the functions as the solvers compile them, all alive at once, against their interpreted values"""
    from conmech.solvers.solver_methods import njit

    rng = np.random.default_rng(case["seed"])
    made = []
    for s in case["laws"]:
        law = make(s)
        fns = [law.potential_normal_direction, law.subderivative_normal_direction, law.normal_bound]
        made.append((s, fns, [njit(fn) for fn in fns]))
        mon.seen(s["kind"])
    for rep in range(2):
        for i in rng.permutation(len(made)):
            s, fns, comp = made[i]
            for v, u, dt in points(rng, s, 25):
                for name, fn, cf in zip(("potential", "response", "bound"), fns, comp):
                    a, b = float(fn(v, u, dt)), float(cf(v, u, dt))
                    mon.close("compiled", b, a, 1e-12, 1e-12 + abs(a) + s["p"] * (1 + abs(v)), f"{s} {name} at {v, u, dt}")
    mon.nontrivial(repr(case["laws"]))


def run_solve(case, mon):
    """three solvers with different parameters, built first and run in another order, against solvers that run alone"""
    s = case["s"]

    def build(p):
        sc = scen.Scenario(dict(s, law={"law": "slope", "p": p}))
        solver = sut.C().ps.StaticSolver(sut.static_problem(sc.descr, sc.bnd, s["mu"], s["la"], sc.law, sc.inner, sc.outer), s["method"])
        sc.bind(solver.body.mesh)
        return sc, solver

    def solve(solver):
        with contextlib.redirect_stdout(io.StringIO()):
            return np.array(solver.solve(initial_displacement=lambda x: np.zeros_like(x)).displacement)

    alone = [solve(build(p)[1]) for p in case["p"]]
    group = [build(p) for p in case["p"]]
    got = {}
    for i in case["order"]:
        got[i] = solve(group[i][1])
    energy = []
    for i, (sc, _) in enumerate(group):
        mon.close("solve-independent", got[i], alone[i], 1e-9, np.abs(alone[i]).max() + 1e-12, f"slope {case['p'][i]} after {case['order']}")
        unit = ref.Contact(sc.X, sc.contact_faces, sc.normals, sut.law({"law": "slope", "p": 1.0}), 2)
        energy.append(unit.energy(got[i], np.zeros_like(sc.X), 0.0))
    for a, b, p in zip(energy, energy[1:], case["p"]):
        mon.check("solve-monotone", b <= a * (1 + 1e-4) + 1e-12, f"penetration energy grows from {a:.6e} to {b:.6e} when the slope grows: {case['p']}")
    if energy[0] > 1e-10:
        mon.nontrivial(got[0])
