"""Boundary normals: unit, perpendicular, outward, aligned with their faces."""
import numpy as np

from vf import gen, ref, sut
from vf.gen import rng_of
from vf.props.c02 import predicate
from vf import meshes

RULE = (
    "random 2D/3D meshes (mirrored, sheared, renumbered, permuted elements, holes, re-entrant corners) x random boundary "
    "partitions; every face normal is compared with the geometric outward normal; non-trivial when the boundary has a face "
    "that is not axis-aligned or at least two classes of faces"
)
REQUIRED = ["unit-2d", "outward-2d", "contact-normal-2d", "unit-3d", "perpendicular-3d"]
ASSUMPTIONS = ["elements are non-degenerate"]


def cases(tier, seed):
    n2, n3, nj = (450, 110, 2) if tier == "quick" else (3000, 600, 10)
    out = []
    for i in range(n2 + n3 + nj):
        rng = rng_of("C03", seed, i)
        three = n2 <= i < n2 + n3
        spec = gen.mesh3(rng, 3) if three else gen.mesh2(rng, 6)
        if i % 30 == 7:
            spec = gen.large(spec, i // 30)
        if rng.random() < 0.15:
            spec["scale"] = float(rng.choice([1e-6, 1e-3, 1e3, 1e6]))
        out.append({"kind": "3d" if three else "2d", "mesh": spec, "s": i, "seed": seed, "jit": int(i >= n2 + n3)})
    return out


def run(case, mon):
    c = sut.C()
    spec = case["mesh"]
    rng = rng_of("C03p", case["seed"], case["s"])
    nodes, elements = meshes.build(spec)
    d = nodes.shape[1]
    dd = f"{d}d"
    unit = sut.to_unit(spec)
    is_contact, kc = predicate(rng, unit, d, mon)
    is_dirichlet, kd = predicate(rng, unit, d, mon)
    mids = [nodes[list(f)].mean(axis=0) for f, _ in ref.boundary_faces(elements)]
    if any(is_contact(m) and is_dirichlet(m) for m in mids):
        if d == 3:
            is_dirichlet, kd = (lambda x: False), "none"  # C02's finding
    bnd = c.BoundariesDescription(contact=is_contact, dirichlet=is_dirichlet)
    mesh = c.Mesh(sut.raw_descr(nodes, elements), bnd)
    X = np.asarray(mesh.nodes)
    opposite = dict(ref.boundary_faces(mesh.elements))

    def judge(faces, normals, name):
        if not mon.check(
            f"{name}-{dd}", len(faces) == len(normals), f"{len(normals)} normals for {len(faces)} faces"
        ):
            return
        for f, nrm in zip(faces, normals):
            key = tuple(sorted(map(int, f)))
            if not mon.check(f"{name}-{dd}", key in opposite, f"{key} is not a boundary face"):
                return
            want = ref.outward_normal(X, key, opposite[key])
            length = float(np.linalg.norm(nrm))
            cos = float(np.dot(nrm, want))
            if d == 2:
                mon.check("unit-2d", abs(length - 1) < 1e-9, f"normal of length {length}")
                mon.check("outward-2d", abs(cos - 1) < 1e-7, f"face {key}: normal {nrm}, outward {want}")
            else:
                zero = length < 1e-12
                mon.check(
                    "unit-3d", zero or abs(length - 1) < 1e-9, f"normal of length {length}"
                )
                mon.check("perpendicular-3d", zero or abs(abs(cos) - 1) < 1e-7, f"face {key}: normal {nrm} outward {want}")
                if zero or cos < 0:
                    mon.fail("outward-3d", f"face {key}: normal {nrm}, outward {want}", "3d-normal-orientation")

    judge(mesh.boundary_surfaces, mesh.boundaries.surface_normals, "surface-normals")
    judge(mesh.contact_boundary, mesh.boundaries.contact_normals, "contact-normal")
    mon.seen("contact-normal-2d" if d == 2 else "contact-normal-3d")
    kinds = sum(len(a) > 0 for a in (mesh.contact_boundary, mesh.neumann_boundary, mesh.dirichlet_boundary))
    if kinds > 1:
        mon.nontrivial(X, np.asarray(mesh.boundaries.surface_normals))
    mon.note("faces", {"dimension": d, "faces": len(opposite), "contact": len(mesh.contact_boundary)})
