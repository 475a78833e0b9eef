"""Assembled operators are the exact Galerkin matrices."""
import numpy as np

from vf import gen, ref, sut
from vf.gen import rng_of

RULE = (
    "random 2D/3D simplicial meshes (jittered, sheared, mirrored, renumbered, non-convex, holes) x random "
    "material tensors; a case is non-trivial when the mesh has at least one non-axis-aligned or "
    "renumbered element and every compared operator is non-zero"
)
REQUIRED = [
    "elasticity-2d",
    "elasticity-3d",
    "viscosity-2d",
    "mass-2d",
    "mass-3d",
    "membrane-2d",
    "thermal-expansion-2d",
    "thermal-expansion-3d",
    "thermal-conductivity-2d",
    "thermal-conductivity-3d",
    "piezoelectricity-2d",
    "permittivity-2d",
    "relaxation-2d",
    "second-body",
    "sized",
    "rigid-motions",
    "affine-energy",
    "volumes",
]
ASSUMPTIONS = [
    "operators are read from the body's dynamics after construction; floating point tolerance 1e-8 relative"
]
TOL = 1e-8


def cases(tier, seed):
    n2, n3, nj = (110, 40, 2) if tier == "quick" else (1500, 500, 12)
    out = []
    for i in range(n2):
        rng = rng_of("C05", seed, 2, i)
        spec = gen.mesh2(rng, 5)
        if i % 36 == 7:
            spec = gen.large(spec, i // 36)
        out.append({"kind": "2d", "mesh": spec, "s": i, "seed": seed, "w": 1})
    for i in range(n3):
        rng = rng_of("C05", seed, 3, i)
        spec = gen.mesh3(rng, 2)
        if i % 36 == 7:
            spec = gen.large(spec, i // 36)
        out.append({"kind": "3d", "mesh": spec, "s": i, "seed": seed, "w": 2})
    for i in range(nj):
        rng = rng_of("C05", seed, "jit", i)
        out.append({"kind": "2d", "mesh": gen.mesh2(rng, 5), "s": i, "seed": seed, "jit": 1, "w": 3})
        out.append({"kind": "3d", "mesh": gen.mesh3(rng, 2), "s": i, "seed": seed, "jit": 1, "w": 3})
    return out


def make_body(props, mesh):
    from conmech.dynamics.dynamics import Dynamics

    body = sut.C().ps.Body(props, mesh)
    Dynamics(body)
    return body


def turned(spec, d):
    """the same body with its axes exchanged: the same elements, another shape"""
    p = np.roll(np.eye(d), 1, axis=0)
    out = dict(spec, affine=(p @ np.array(spec.get("affine") if spec.get("affine") is not None else np.eye(d))).tolist())
    if spec.get("shift") is not None:
        out["shift"] = (p @ np.array(spec["shift"])).tolist()
    return out


def sized(spec, d, k):
    """the same body k times as large"""
    out = dict(spec, affine=(k * np.array(spec.get("affine") if spec.get("affine") is not None else np.eye(d))).tolist())
    if spec.get("shift") is not None:
        out["shift"] = (k * np.array(spec["shift"])).tolist()
    return out


def run(case, mon):
    one(case, mon)
    if case["s"] % 3 == 0 and case["mesh"].get("n", 0) < 12:
        one(dict(case, mesh=turned(case["mesh"], 2 if case["kind"] == "2d" else 3)), mon)
        mon.seen("second-body")
        one(case, mon)
    if case["s"] % 3 == 1 and case["mesh"].get("n", 0) < 12:
        d = 2 if case["kind"] == "2d" else 3
        one(dict(case, mesh=sized(case["mesh"], d, [1e-3, 1e2, 1e-6, 1e3, 1e-2, 1e5][case["s"] // 3 % 6])), mon)
        mon.seen("sized")


def one(case, mon):
    from conmech.properties import body_properties as bp

    rng = rng_of("C05p", case["seed"], case["kind"], case["s"])
    d = 2 if case["kind"] == "2d" else 3
    dd = f"{d}d"
    descr, _, _ = sut.descr(case["mesh"])
    unit = sut.to_unit(case["mesh"])
    bnd = sut.boundaries({"contact": "bottom", "dirichlet": "left"}, unit)
    mesh = sut.C().Mesh(descr, bnd)
    fem = ref.Fem(mesh.nodes, mesh.elements)
    mu, la, th, ze = (gen.coef(rng) for _ in range(4))
    rho = gen.coef(rng, 0.05, 5)
    ct = rng.uniform(-2, 2, size=(d, d))
    cc = rng.uniform(-1, 1, size=(d, d))

    body = make_body(
        bp.ViscoelasticTemperatureProperties(
            mass_density=rho,
            mu=mu,
            lambda_=la,
            theta=th,
            zeta=ze,
            thermal_expansion=ct,
            thermal_conductivity=cc,
        ),
        mesh,
    )
    dyn = body.dynamics
    K = sut.data(dyn.elasticity)
    if not mon.close(f"elasticity-{dd}", K, fem.elasticity(mu, la), TOL):
        return
    mon.close(f"viscosity-{dd}", sut.data(dyn.viscosity), fem.elasticity(th, ze), TOL)
    mon.close(f"mass-{dd}", sut.data(dyn.acceleration_operator), fem.block_mass(rho), TOL)
    mon.close(f"thermal-expansion-{dd}", sut.data(dyn.thermal_expansion), fem.thermal_expansion(ct), TOL)
    mon.close(f"thermal-conductivity-{dd}", sut.data(dyn.thermal_conductivity), fem.diffusion(cc), TOL)
    vols = getattr(dyn, "element_initial_volume", None)
    if vols is not None:
        mon.close("volumes", vols, fem.vol, TOL)
    else:
        mon.seen("volumes")

    # facts that need no reference assembly
    X = mesh.nodes - mesh.nodes.mean(axis=0)
    A = rng.uniform(-1, 1, size=(d, d))
    modes = [np.eye(d)[a][None, :] + 0 * X for a in range(d)]
    skew = A - A.T
    modes.append(X @ skew.T)
    kmax = np.abs(K).max()
    for m in modes:
        mon.close("rigid-motions", K @ ref.stack(m), np.zeros(d * fem.n), 1e-7, scale=kmax * (1 + np.abs(m).max()))
    u = X @ A.T
    eps = 0.5 * (A + A.T)
    want = fem.vol.sum() * (2 * mu * np.sum(eps * eps) + la * np.trace(eps) ** 2)
    got = ref.stack(u) @ K @ ref.stack(u)
    mon.close("affine-energy", got, want, 1e-7, scale=max(abs(want), kmax))
    mon.close("symmetric", K, K.T, 1e-9, scale=kmax)
    M = sut.data(dyn.acceleration_operator)
    one = np.concatenate([np.ones(fem.n)] + [np.zeros(fem.n)] * (d - 1))
    mon.close("total-mass", one @ M @ one, rho * fem.vol.sum(), 1e-9)

    if d == 2:
        c = gen.coef(rng)
        membrane = make_body(bp.MembraneProperties(mass_density=rho, propagation=c), mesh)
        lap = fem.laplace(1.0)
        P = sut.data(membrane.dynamics.poisson_operator)
        # the documented propagation convention is probed by C16; here up to its scalar factor
        factor = float(np.sum(P * lap) / np.sum(lap * lap))
        mon.close("membrane-2d", P, factor * lap, TOL, scale=np.abs(factor * lap).max())
        mon.check("membrane-propagation", factor > 0 and (abs(factor - c * c) < 1e-6 * c * c), f"factor {factor} for propagation {c}")
        pe = rng.uniform(-1, 1, size=(2, 2, 2))
        pp = rng.uniform(-1, 1, size=(2, 2))
        piezo = make_body(
            bp.ViscoelasticPiezoelectricProperties(
                mass_density=rho, mu=mu, lambda_=la, theta=th, zeta=ze, piezoelectricity=pe, permittivity=pp
            ),
            mesh,
        )
        mon.close("piezoelectricity-2d", sut.data(piezo.dynamics.piezoelectricity), fem.piezo(pe), TOL)
        mon.close("permittivity-2d", sut.data(piezo.dynamics.permittivity), fem.diffusion(pp), TOL)
        base = rng.uniform(-1, 1, size=(2, 2, 2))

        def relaxation(t=0):
            return base * (1.0 + t)

        rel = make_body(
            bp.ElasticRelaxationProperties(mass_density=rho, mu=mu, lambda_=la, relaxation=relaxation), mesh
        )
        for t in (0.0, 0.5, 0.0, 1.25, 1.25, 1.25 + 3e-7, -1.0, 1.25, 1.25 + 2e-6, 0.0, 1e-6):
            mon.close(
                "relaxation-2d", sut.data(rel.dynamics.relaxation(t)), fem.relaxation(relaxation(t)), TOL, detail=f"t={t}"
            )
        mon.close("elasticity-2d", sut.data(rel.dynamics.elasticity), fem.elasticity(mu, la), TOL)
    mon.nontrivial(mesh.nodes, mesh.elements, mu, la)
    mon.note("operators", {"dimension": d, "nodes": fem.n, "elements": len(fem.elements), "mu": mu, "la": la})
