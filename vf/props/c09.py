"""Static solutions minimise the energy of the contact problem."""
import numpy as np

from vf import evo, gen, ref, scen, sut
from vf.gen import f, rng_of

RULE = (
    "random meshes, partitions, materials, loads, convex laws (response, gap, power, adhesion, friction), initial guesses and "
    "methods; each result is compared with an independent Newton minimiser in the energy norm; non-trivial when the body deforms "
    "and (for contact cases) contact is active on at least one point"
)
REQUIRED = ["equilibrium-schur", "equilibrium-global", "equilibrium-direct", "equilibrium-3d", "contact-active", "friction-seen", "partial-contact", "equilibrium-constrained", "no-sinking", "foundation-active", "foundation-left", "balance-linear", "stiff-schur", "stiff-global", "stiff-direct"]
ASSUMPTIONS = ["laws are convex; optimiser accuracy is part of the contract"]
TOL = 5e-4
CTOL = TOL


def spec2(rng, i):
    method = str(rng.choice(["schur", "schur", "global", "direct"]))
    nmax = 4 if method == "schur" else 3
    laws = ("slope", "gap", "cubic", "adhesive") if method == "direct" else ("slope", "gap", "cubic", "adhesive", "friction", "friction")
    con, dirich = scen.PARTITIONS[int(rng.integers(0, len(scen.PARTITIONS)))]
    s = {
        "mesh": scen.mesh2(rng, nmax),
        "contact": con,
        "dirichlet": dirich,
        "law": scen.law(rng, laws),
        "mu": gen.coef(rng, 1, 12),
        "la": gen.coef(rng, 1, 12),
        "inner": scen.load(rng, 2, 1.0),
        "outer": scen.load(rng, 2, 0.6),
        "method": method,
        "opt": "BFGS",
        "guess": {"const": np.round(rng.uniform(-0.1, 0.1, 2), 3).tolist(), "wave": f(rng.choice([0.0, 0.05]))},
    }
    if rng.random() < 0.4:
        s["c"] = [f(rng.uniform(-0.1, 0.1), 3), np.round(rng.uniform(-0.1, 0.1, 2), 3).tolist()]
    if s["law"]["law"] in ("slope", "gap", "cubic", "adhesive") and method != "direct" and rng.random() < 0.4:
        s["opt"] = "gradiented BFGS"
    return units(s, rng)


def units(s, rng):
    """the same problem with forces measured in another unit: the displacements stay"""
    a = float(rng.choice([1.0, 1.0, 1.0, 1e-3, 1e3, 1e6, 1e9]))
    if s["method"] == "global":
        a = max(a, 1.0)
    s["unit"] = a
    s["mu"], s["la"] = s["mu"] * a, s["la"] * a
    s["law"]["p"] *= a
    if "fr" in s["law"]:
        s["law"]["fr"] *= a
    for k in ("inner", "outer"):
        for part in ("const", "lin"):
            if s[k].get(part):
                s[k][part] = (a * np.array(s[k][part])).tolist()
    return s


def spec3(rng):
    s = {
        "d": 3,
        "mesh": gen.mesh3(rng, 2, shapes=["cube", "box", "lcube"]),
        "contact": "none",
        "dirichlet": "left",
        "law": {"law": "slope", "p": 5.0},
        "mu": gen.coef(rng, 1, 12),
        "la": gen.coef(rng, 1, 12),
        "inner": scen.load(rng, 3, 1.0),
        "outer": scen.load(rng, 3, 0.6),
        "method": str(rng.choice(["global", "direct"])),
        "opt": "BFGS",
        "guess": {"const": [0.0, 0.0, 0.0]},
    }
    if rng.random() < 0.5:
        s["c"] = [f(rng.uniform(-0.1, 0.1), 3), np.round(rng.uniform(-0.1, 0.1, 3), 3).tolist()]
    return s


def specc(rng):
    """a rigid foundation below the contact side ("constrained")"""
    nmax = 3
    s = {
        "mesh": {"d": 2, "shape": "square", "n": int(rng.integers(2, nmax + 1)), "m": int(rng.integers(1, 3)), "seed": int(rng.integers(0, 2**31)), "jitter": f(rng.choice([0.0, 0.3]))},
        "contact": "bottom",
        "dirichlet": str(rng.choice(["left", "top", "right"])),
        "law": scen.law(rng, ("slope", "cubic", "adhesive", "friction", "friction")),
        "mu": gen.coef(rng, 1, 12),
        "la": gen.coef(rng, 1, 12),
        "inner": scen.load(rng, 2, 1.0),
        "outer": scen.load(rng, 2, 0.6),
        "method": str(rng.choice(["schur", "global"])),
        "opt": "constrained",
        "guess": {"const": [0.0, 0.0]},
    }
    if rng.random() < 0.5:
        s["inner"]["const"][1] = -abs(s["inner"]["const"][1])
    if rng.random() < 0.3:
        s["c"] = [f(rng.uniform(-0.1, 0.1), 3), np.round(rng.uniform(-0.1, 0.1, 2), 3).tolist()]
    return s


def cases(tier, seed):
    n2, n3, nj = (150, 10, 2) if tier == "quick" else (2500, 120, 16)
    nc = 40 if tier == "quick" else 600
    out = []
    for i in range(n2 + nj):
        rng = rng_of("C09", seed, i)
        s = spec2(rng, i)
        w = {"schur": 1, "global": 6, "direct": 2}[s["method"]]
        out.append({"kind": "2d-" + s["method"], "s": s, "w": w, "jit": int(i >= n2)})
    for i in range(nc):
        s = specc(rng_of("C09", seed, "constrained", i))
        out.append({"kind": "constrained-" + s["method"], "s": s, "w": 3})
    for i in range(n3):
        rng = rng_of("C09", seed, "3d", i)
        s = spec3(rng)
        out.append({"kind": "3d", "s": s, "w": 8})
    for i in range(24 if tier == "quick" else 300):
        rng = rng_of("C09", seed, "linear", i)
        s = spec3(rng) if i % 4 == 3 else spec2(rng, i)
        s["contact"] = "none"
        s["method"] = "direct" if i % 4 == 3 or i % 2 else "schur"
        s["opt"] = "BFGS"
        s["law"] = {"law": "slope", "p": 5.0}
        if s.get("d", 2) == 2:
            s["mesh"] = scen.mesh2(rng, 7)
        units(s, rng)
        s["size"] = float(rng.choice([1e-6, 1e-3, 1.0, 1e4]))
        evo.rescale(s, s["size"])
        out.append({"kind": "linear", "s": s, "w": 4})
    return out


def solve(sc, method=None, opt=None, guess=None):
    s = sc.s
    problem = sut.static_problem(sc.descr, sc.bnd, s["mu"], s["la"], sc.law, sc.inner, sc.outer)
    solver = sut.C().ps.StaticSolver(problem, method or s["method"])
    sc.bind(solver.body.mesh)
    g = scen.field(guess or s["guess"], sc.d)
    state = solver.solve(initial_displacement=g, method=opt or s.get("opt", "BFGS"), verbose=bool(s["mesh"]["seed"] % 2))
    return solver, state


def reference(sc):
    s = sc.s
    A = sc.fem.elasticity(s["mu"], s["la"])
    b = sc.force(0.0)
    static = np.zeros((sc.n, sc.d))
    return lambda variant: sc.minimum(A, b, static, 0.0, variant, old=np.zeros(sc.d * sc.n))


def activity(sc, u):
    """number of contact points with a response / all"""
    on = total = 0
    g = float(sc.s["law"].get("g", 0.0)) if sc.s.get("law") else 0.0
    for fc, nrm in zip(sc.contact_faces, sc.normals):
        for v in fc:
            total += 1
            on += float(u[v] @ nrm) > g
    return on, total


def constrained(case, mon, sc, u):
    """Signorini contact: nodes of the contact side do not sink, and the energy is minimal among such states"""
    s = case["s"]
    nodes = sorted({v for fc in sc.contact_faces for v in fc} - set(sc.dn.tolist()))
    low = np.array(nodes) + sc.n
    x = ref.stack(u)
    size = max(float(np.abs(x).max()), 1e-9)
    mon.check("no-sinking", x[low].min() >= -1e-6 * size, f"{s['method']} node {nodes[int(np.argmin(x[low]))]} sinks by {-x[low].min():.3e}")
    minima = []

    def make(variant):
        minima.append(ref.Unilateral(reference(sc)(variant), low))
        return minima[-1]

    scen.judge(mon, "equilibrium-constrained", make, x, CTOL, scen.variants(sc, s["method"]), f"{s['method']} {s['law']['law']}")
    on = len(minima[0].active)
    mon.seen("foundation-active", on)
    mon.seen("foundation-left", len(low) - on)
    if size > 1e-6:
        mon.nontrivial(u)
    mon.note("solution", {"max": size, "resting": on, "of": len(low)})


def run(case, mon):
    s = case["s"]
    sc = scen.Scenario(s)
    solver, state = solve(sc)
    u = np.asarray(state.displacement, dtype=float)
    if s["opt"] == "constrained":
        return constrained(case, mon, sc, u)
    if case["kind"] == "linear":  # nothing is minimised: the balance holds to rounding
        mini, x = reference(sc)("true"), ref.stack(u)
        free = mini.free
        r = (mini.A @ x - mini.b)[free]
        parts = (np.abs(mini.A) @ np.abs(x) + np.abs(mini.b))[free].max(initial=0.0)
        mon.le("balance-linear", float(np.abs(r).max(initial=0.0)) / (parts + 1e-300), 1e-7 if s["method"] == "direct" else 1e-10, f"{s['method']} {sc.d}d residual;")
        mon.nontrivial(u)
        return
    name = "equilibrium-3d" if sc.d == 3 else "equilibrium-" + s["method"]
    scen.judge(mon, name, reference(sc), ref.stack(u), TOL, scen.variants(sc, s["method"]), f"{s['law']['law']} {s['opt']}")
    on, total = activity(sc, u)
    if total:
        mon.seen("contact-active", on)
        if 0 < on < total:
            mon.seen("partial-contact")
    if s["law"]["law"] == "friction" and total:
        mon.seen("friction-seen")
    if s.get("unit", 1.0) > 1e4:
        mon.seen("stiff-" + s["method"])
    if np.abs(u).max() > 1e-6:
        mon.nontrivial(u)
    mon.note("solution", {"max": float(np.abs(u).max()), "active": on, "points": total, "touching": sc.touching})
