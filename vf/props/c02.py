"""Boundary classification and node ordering follow the user's predicates."""
import numpy as np

from vf import gen, meshes, ref, sut
from vf.gen import rng_of

RULE = (
    "random meshes x predicates (sides, partial sides, overlapping, curved sets, extra named boundaries with values); "
    "every face and node of the built mesh is classified independently; non-trivial when at least two classes are non-empty"
)
REQUIRED = [
    "contact-faces",
    "dirichlet-faces",
    "neumann-faces",
    "node-order",
    "index-ranges",
    "named-boundary",
    "named-plain",
    "dirichlet-values",
    "overlap-seen",
    "partial-side-seen",
]
ASSUMPTIONS = ["predicates are evaluated away from their discontinuities by more than rounding"]


def cases(tier, seed):
    n2, n3, nj = (420, 100, 2) if tier == "quick" else (2500, 500, 12)
    out = []
    for i in range(n2 + n3 + nj):
        rng = rng_of("C02", seed, i)
        three = n2 <= i < n2 + n3
        spec = gen.mesh3(rng, 3) if three else gen.mesh2(rng, 6)
        if i % 20 == 7:
            spec = gen.large(spec, i // 20)
        if rng.random() < 0.2:
            spec["extra"] = 2
        out.append(
            {"kind": "3d" if three else "2d", "mesh": spec, "s": i, "seed": seed, "jit": int(i >= n2 + n3)}
        )
    return out


def predicate(rng, unit, d, mon):
    """a random set described by the user; returns (callable, description)"""
    kind = rng.choice(["none", "side", "two", "partial", "halfspace", "disc", "strip"])
    axis = int(rng.integers(0, d))
    at = float(rng.choice([0.0, 1.0]))
    axis2 = (axis + 1) % d
    a, b = sorted(rng.uniform(-0.1, 1.1, size=2))
    centre = rng.uniform(0, 1, size=d)
    r = rng.uniform(0.2, 0.9)
    normal = rng.normal(size=d)
    off = normal @ rng.uniform(0.2, 0.8, size=d)

    def ind(x):
        y = unit(x)
        if kind == "none":
            return False
        if kind == "side":
            return abs(y[axis] - at) < 1e-9
        if kind == "two":
            return abs(y[axis] - at) < 1e-9 or abs(y[axis2] - 1 + at) < 1e-9
        if kind == "partial":
            return abs(y[axis] - at) < 1e-9 and a < y[axis2] < b
        if kind == "halfspace":
            return y @ normal > off
        if kind == "disc":
            return np.sum((y - centre) ** 2) < r * r
        return a < y[axis2] < b

    return ind, str(kind)


def run(case, mon):
    c = sut.C()
    spec = case["mesh"]
    rng = rng_of("C02p", case["seed"], case["s"])
    nodes, elements = meshes.build(spec)
    d = nodes.shape[1]
    unit = sut.to_unit(spec)
    is_contact, kc = predicate(rng, unit, d, mon)
    is_dirichlet, kd = predicate(rng, unit, d, mon)
    is_other, ko = predicate(rng, unit, d, mon)
    coeff = rng.normal(size=d)
    coeff2 = rng.normal(size=d)

    def value(x):
        return x @ coeff + 0.25

    def value2(x):
        return np.cos(x @ coeff2)

    with_value = rng.random() < 0.6
    kw = {"contact": is_contact, "other": (is_other, value2)}
    kw["dirichlet"] = (is_dirichlet, value) if with_value else is_dirichlet
    if rng.random() < 0.4:
        # a named boundary may be given by its predicate alone, its values are then zero
        kw["other"] = is_other
        mon.seen("named-plain")

        def value2(x):
            return np.zeros(len(x))

    if rng.random() < 0.15:
        kw.pop("dirichlet")
        is_dirichlet, kd, with_value = (lambda x: False), "absent", False
    if rng.random() < 0.15:
        kw.pop("contact")
        is_contact, kc = (lambda x: False), "absent"
    bnd = c.BoundariesDescription(**kw)
    double = any(
        is_contact(m) and is_dirichlet(m)
        for m in (nodes[list(f)].mean(axis=0) for f, _ in ref.boundary_faces(elements))
    )
    try:
        mesh = c.Mesh(sut.raw_descr(nodes, elements), bnd)
    except ValueError as e:
        if d == 3 and double:
            mon.seen("overlap-seen")
            mon.fail("no-crash", f"3D face claimed by contact and dirichlet: {e}", "overlapping-3d-faces")
            return
        raise
    X = np.asarray(mesh.nodes)
    faces = [f for f, _ in ref.boundary_faces(mesh.elements)]
    mids = [X[list(f)].mean(axis=0) for f in faces]
    on_contact = {f for f, m in zip(faces, mids) if is_contact(m)}
    on_dirichlet = {f for f, m in zip(faces, mids) if is_dirichlet(m)}
    rest = set(faces) - on_contact - on_dirichlet

    def as_set(a, name):
        got = [tuple(sorted(map(int, f))) for f in np.asarray(a)]
        mon.check(name, len(got) == len(set(got)), f"{name}: a face is listed twice")
        return set(got)

    b = mesh.boundaries
    for name, got, want in (
        ("contact-faces", mesh.contact_boundary, on_contact),
        ("dirichlet-faces", mesh.dirichlet_boundary, on_dirichlet),
        ("neumann-faces", mesh.neumann_boundary, rest),
    ):
        got = as_set(got, name)
        mon.check(name, got == want, lambda: f"{name}: {len(got)} faces, expected {len(want)}; differ {list(got ^ want)[:4]}")

    bnodes = sorted({v for f in faces for v in f})
    dn = {v for v in bnodes if is_dirichlet(X[v])}
    cn = {v for v in bnodes if is_contact(X[v])} - dn
    nn = set(bnodes) - dn - cn
    n = len(X)
    both = {v for v in bnodes if is_contact(X[v]) and is_dirichlet(X[v])}
    mon.seen("overlap-seen", len(both))
    if "partial" in (kc, kd):
        mon.seen("partial-side-seen")
    order = ["C"] * len(cn) + ["N"] * len(nn) + ["I"] * (n - len(bnodes)) + ["D"] * len(dn)
    real = ["C" if v in cn else "N" if v in nn else "D" if v in dn else "I" for v in range(n)]
    mon.check("node-order", real == order, lambda: f"nodes are ordered {''.join(real)}, expected {''.join(order)}")

    def span(s):
        if isinstance(s, slice):
            return set(range(*s.indices(n)))
        return set(int(v) for v in s)

    mon.check("index-ranges", span(mesh.contact_indices) == cn, lambda: f"contact indices {mesh.contact_indices} for {len(cn)} nodes")
    mon.check("index-ranges", span(mesh.neumann_indices) == nn, lambda: f"neumann indices {mesh.neumann_indices} for {len(nn)} nodes")
    mon.check("index-ranges", span(mesh.dirichlet_indices) == dn, lambda: f"dirichlet indices {mesh.dirichlet_indices} for {len(dn)} nodes")
    mon.check("index-ranges", span(mesh.independent_indices) == set(range(n)) - dn, "independent indices")
    mon.check("index-ranges", span(mesh.free_indices) == set(range(n)) - dn - cn, "free indices")
    counts = {
        "contact_nodes_count": len(cn),
        "neumann_nodes_count": len(nn),
        "dirichlet_nodes_count": len(dn),
        "boundary_nodes_count": len(bnodes),
        "independent_nodes_count": n - len(dn),
        "free_nodes_count": n - len(dn) - len(cn),
        "inner_nodes_count": n - len(bnodes),
    }
    for k, want in counts.items():
        got = getattr(mesh, k)
        mon.check("counts", got == want, f"{k} = {got}, expected {want}")

    # values attached to the boundaries
    known = b.boundaries if isinstance(getattr(b, "boundaries", None), dict) else {}
    cond = getattr(known.get("dirichlet"), "node_condition", None)
    if cond is not None:
        ids = sorted(dn)
        want = value(X[ids]) if with_value else np.zeros(len(ids))
        mon.close("dirichlet-values", np.asarray(cond, dtype=float).ravel(), want, 1e-10, scale=1 + np.abs(X).max())
    on_other = {f for f, m in zip(faces, mids) if is_other(m)}
    if on_other:
        other = known.get("other")
        if mon.check("named-boundary", other is not None, "a named boundary with faces was lost"):
            got = {tuple(sorted(map(int, f))) for f in other.surfaces}
            mon.check("named-boundary", got == on_other, "faces of the named boundary")
            ids = sorted({v for f in on_other for v in f})
            idx = sorted(span(other.node_indices))
            if mon.check("named-boundary", idx == ids and other.node_count == len(ids), "nodes of the named boundary"):
                mon.close("named-boundary", np.asarray(other.node_condition, dtype=float), value2(X[ids]), 1e-10, scale=1.0)
    classes = sum(map(bool, (cn, nn, dn)))
    if classes >= 2:
        mon.nontrivial(X, sorted(on_contact), sorted(on_dirichlet))
    mon.note("classes", {"contact": kc, "dirichlet": kd, "C": len(cn), "N": len(nn), "I": n - len(bnodes), "D": len(dn), "both": len(both)})
