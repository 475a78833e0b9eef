"""Mesh generators tile the described domain with conforming, non-degenerate simplices."""
import numpy as np

from vf import gen, meshes, ref, sut
from vf.gen import f, rng_of

RULE = (
    "every generator whose back end is installed x random size, scale, position; tiling is decided by volume, extent, "
    "boundary distance and face sharing; non-trivial when the mesh has at least two elements"
)
REQUIRED = ["conforming", "non-degenerate", "total-measure", "extent", "boundary-on-domain", "element-size", "position", "again", "finer", "description-kept"]
ASSUMPTIONS = ["dmsh and meshzoo are not installed here: the generators built on them are not reached"]

POLY = {
    "Polygon": np.array([[0.0, 0.2], [1.0, 0.0], [1.1, 1.4], [0.1, 0.9]]) / 1.4,
    "PgmshRectangle": np.array([[0.0, 0.0], [0.0, 1.0], [1.0, 1.0], [1.0, 0.0]]),
    "CrossMesh": np.array([[0.0, 0.0], [0.0, 1.0], [1.0, 1.0], [1.0, 0.0]]),
    "Barboteu2008": np.array(
        [[0.0, 1.0], [1.0, 0.0], [3.0, 0.0], [3.0, 1.0], [1.5, 1.0], [1.0, 1.5], [1.0, 4.0], [0.0, 4.0]]
    ),
}


def cases(tier, seed):
    mult = 1 if tier == "quick" else 12
    out = []

    def add(kind, i, **kw):
        rng = rng_of("C04", seed, kind, i)
        d = 3 if kind in ("Cube", "Ball", "Polygon3D", "Twist") else 2
        case = {"kind": kind, "s": i, "d": d}
        case["pos"] = np.round(rng.uniform(-3, 3, size=d), 3).tolist() if rng.random() < 0.6 else None
        unit = float(rng.choice([1.0, 1.0, 1e-3, 1e3])) if kind == "CrossMesh" else float(rng.choice([1.0, 1.0, 10.0]))
        if kind in ("CrossMesh", "Polygon", "PgmshRectangle", "Spline"):
            case["scale"] = [f(rng.uniform(0.3, 3) * unit, 9), f(rng.uniform(0.3, 3) * unit, 9)]
            case["h"] = f(min(case["scale"]) * rng.uniform(0.12, 0.9), 9)
            if rng.random() < 0.4:  # sizes that divide the side exactly, also in floating point
                case["scale"] = [f(int(rng.integers(1, 9)) * 0.1 * unit, 9), f(int(rng.integers(1, 9)) * 0.1 * unit, 9)]
                case["h"] = f(0.1 * unit, 9)
            if kind != "CrossMesh":
                case["h"] = max(case["h"], max(case["scale"]) / 25)
        elif kind == "Circle":
            case["radius"] = f(rng.uniform(0.2, 4))
            case["h"] = f(case["radius"] * rng.uniform(0.15, 0.7))
        elif kind == "Barboteu2008":
            case["h"] = f(rng.uniform(0.25, 0.9))
        elif kind in ("Polygon3D", "Twist"):
            case["h"] = f(rng.uniform(0.3, 0.8))
        case.update(kw)
        out.append(case)

    for kind, n in (
        ("CrossMesh", 40),
        ("Polygon", 8),
        ("PgmshRectangle", 8),
        ("Spline", 6),
        ("Circle", 8),
        ("Barboteu2008", 4),
        ("Polygon3D", 3),
        ("Twist", 3),
        ("Cube", 2),
        ("Ball", 2),
    ):
        for i in range(n * mult):
            add(kind, i)
    add("CrossMesh", 10**6, jit=1)
    return out


def description(case):
    md = sut.C().md
    kind = case["kind"]
    cls = getattr(md, kind.replace("Mesh", "") + "MeshDescription")
    kw = {"initial_position": None if case["pos"] is None else np.array(case["pos"])}
    for src, dst in (("h", "max_element_perimeter"), ("scale", "scale"), ("radius", "radius")):
        if src in case:
            kw[dst] = case[src]
    return cls(**kw)


def shoelace(p):
    x, y = p[:, 0], p[:, 1]
    return 0.5 * abs(np.sum(x * np.roll(y, -1) - y * np.roll(x, -1)))


def to_segment(points, poly):
    """distance of every point to the closed polygon"""
    best = np.full(len(points), np.inf)
    for a, b in zip(poly, np.roll(poly, -1, axis=0)):
        t = np.clip(((points - a) @ (b - a)) / np.dot(b - a, b - a), 0, 1)
        best = np.minimum(best, np.linalg.norm(points - (a + t[:, None] * (b - a)), axis=1))
    return best


def run(case, mon):
    """the described mesh; a neighbouring description in the same process; the first one again"""
    first = judge(case, mon)
    if case.get("jit") or case["s"] % 2:
        return
    for other in neighbours(case):
        second = judge(other, mon)
        if "h" in case and other["h"] < 0.7 * case["h"]:
            mon.check("finer", len(second[1]) > len(first[1]), f"{len(second[1])} elements for {other['h']}, {len(first[1])} for {case['h']}")
    again = judge(case, mon)
    mon.check(
        "again",
        first[0].shape == again[0].shape and np.allclose(first[0], again[0], atol=1e-12 * np.abs(first[0]).max()) and np.array_equal(first[1], again[1]),
        "the same description gives another mesh after others were built",
    )


def neighbours(case):
    """descriptions that share all but one parameter"""
    out = [dict(case, pos=[1.25 + k for k in range(case["d"])] if case["pos"] is None else None)]
    if "scale" in case:
        a, b = case["scale"]
        out.append(dict(case, scale=[a, b * 1.3]))
        out.append(dict(case, scale=[b * 1.1, a]))
    if "radius" in case:
        out.append(dict(case, radius=case["radius"] * 1.4))
    if "h" in case:
        size = max(case.get("scale") or [case.get("radius", 2.0)])
        out.append(dict(case, h=case["h"] * (0.6 if case["h"] < size / 8 else 0.4)))
    return out


def judge(case, mon):
    c = sut.C()
    kind, d = case["kind"], case["d"]
    bnd = c.BoundariesDescription(contact=lambda x: False, dirichlet=lambda x: False)
    given = description(case)
    before = repr(given)
    mesh = c.Mesh(given, bnd)
    mon.check("description-kept", repr(given) == before, f"building changed the description {before} to {given!r}")
    X, E = np.asarray(mesh.nodes).copy(), np.asarray(mesh.elements).copy()
    ext = np.ptp(X, axis=0)
    size = ext.max()
    pos = None if case["pos"] is None else np.array(case["pos"])

    # ---- expected domain (before translation)
    poly = None
    if kind in POLY:
        poly = POLY[kind] * np.array(case.get("scale", [1.0, 1.0]))
        measure, lo, hi = shoelace(poly), poly.min(axis=0), poly.max(axis=0)
    elif kind == "Circle":
        r = case["radius"]
        lo, hi, measure = np.zeros(2), np.full(2, 2 * r), None
    elif kind == "Spline":
        lo, hi, measure = None, None, None
    elif kind == "Cube":
        lo, hi, measure = np.zeros(3), np.ones(3), 1.0
    elif kind == "Polygon3D":
        base = np.array([[0.0, 0.0], [1.0, -0.2], [1.1, 1.2], [0.1, 0.7]])
        lo, hi, measure = np.zeros(3), np.ones(3), shoelace(base) / (1.1 * 1.7)
    elif kind == "Twist":
        lo, hi, measure = np.zeros(3), np.ones(3), None
    else:
        lo, hi, measure = None, None, None
    offset = np.zeros(d)
    if pos is not None:
        mon.close("position", X.min(axis=0), pos, 1e-9, scale=1 + np.abs(X).max())
        offset = pos - (lo if lo is not None else X.min(axis=0))
    Y = X - offset

    # ---- conforming, non-degenerate
    vols = np.abs(meshes.signed_volumes(X, E))
    mon.check("non-degenerate", vols.min() > 1e-6 * vols.mean(), f"smallest element {vols.min():.3e}, mean {vols.mean():.3e}")
    mon.check("non-degenerate", all(len(set(map(int, e))) == d + 1 for e in E), "an element repeats a node")
    own = {}
    for e in E:
        for i in range(d + 1):
            own.setdefault(tuple(sorted(int(v) for j, v in enumerate(e) if j != i)), []).append(i)
    mon.check("conforming", max(len(v) for v in own.values()) <= 2, "a face belongs to more than two elements")
    mon.check("conforming", len({tuple(sorted(map(int, e))) for e in E}) == len(E), "an element is repeated")
    boundary = [k for k, v in own.items() if len(v) == 1]
    ridge = {}
    for k in boundary:
        for i in range(d):
            r_ = tuple(v for j, v in enumerate(k) if j != i)
            ridge[r_] = ridge.get(r_, 0) + 1
    mon.check("conforming", all(v % 2 == 0 for v in ridge.values()), "the boundary is not closed")
    from scipy.spatial import cKDTree

    dup = cKDTree(X).query(X, k=2)[0][:, 1].min()
    mon.check("conforming", dup > 1e-7 * size, f"two nodes at distance {dup:.3e}")
    # the signed volume enclosed by the boundary equals the sum of elements (no overlap, no gap)
    opp = dict(ref.boundary_faces(E))
    flux = sum(ref.face_size(X, k) * np.dot(X[list(k)].mean(axis=0) - X.mean(axis=0), ref.outward_normal(X, k, opp[k])) for k in boundary) / d
    mon.close("total-measure", flux, vols.sum(), 1e-7)

    # ---- domain
    if measure is not None:
        tol = 1e-7 if kind not in ("Polygon3D",) else 1e-6
        mon.close("total-measure", vols.sum(), measure, tol)
    if lo is not None:
        mon.close("extent", Y.min(axis=0), lo, 1e-7 if kind != "Circle" else 5e-2, scale=size)
        mon.close("extent", Y.max(axis=0), hi, 1e-7 if kind != "Circle" else 5e-2, scale=size)
    bn = np.array(sorted({v for k in boundary for v in k}))
    if poly is not None:
        mon.close("boundary-on-domain", to_segment(Y[bn], poly), np.zeros(len(bn)), 1e-7, scale=size)
        mon.check("boundary-on-domain", all(np.linalg.norm(Y - p, axis=1).min() < 1e-7 * size for p in poly), "a corner is missing")
    elif kind == "Circle":
        mid = np.full(2, case["radius"])
        if pos is not None:
            # the lowest node need not be at the pole of the circle: locate the centre from the boundary
            A = np.c_[2 * Y[bn], np.ones(len(bn))]
            mid = np.linalg.lstsq(A, np.sum(Y[bn] ** 2, axis=1), rcond=None)[0][:2]
            mon.close("extent", mid, np.full(2, case["radius"]), 5e-2, scale=size)
        mon.close("boundary-on-domain", np.linalg.norm(Y[bn] - mid, axis=1), np.full(len(bn), case["radius"]), 1e-6, scale=size)
        n = len(bn)
        r = case["radius"]
        mon.check(
            "total-measure",
            0.85 * np.pi * r * r < vols.sum() < np.pi * r * r * (1 + 1e-9),
            f"area {vols.sum()} for a disc of {np.pi * r * r} with {n} boundary nodes",
        )
    elif kind == "Spline":
        sx, sy = case["scale"]
        frac = vols.sum() / (sx * sy)
        mon.check("total-measure", 0.78 < frac < 0.94, f"spline area fraction {frac}")
        rel = ext / np.array([sx, sy])
        mon.check("extent", (rel > 0.99).all() and (rel < 1.09).all(), f"extent relative to the scale {rel}")
        if pos is None:
            for p in ((0.0, 0.0), (sx, sy)):
                mon.check("boundary-on-domain", np.linalg.norm(Y - np.array(p), axis=1).min() < 1e-7 * size, "an end point is missing")
        mon.note("fraction", {"fraction": float(frac), "ext": rel.tolist()})
    elif kind == "Ball":
        mid = 0.5 * (X.min(axis=0) + X.max(axis=0))
        rad = np.linalg.norm(X[bn] - mid, axis=1)
        mon.close("boundary-on-domain", rad, np.full(len(bn), rad.mean()), 1e-5, scale=rad.mean())
        mon.check("total-measure", 0.85 < vols.sum() / (4 / 3 * np.pi * rad.mean() ** 3) < 1, f"volume {vols.sum()}, radius {rad.mean()}")
        mon.note("ball", {"radius": float(rad.mean()), "volume": float(vols.sum()), "spread": float(np.ptp(rad))})
    elif kind in ("Cube", "Polygon3D"):
        if kind == "Cube":
            gap = np.minimum(np.abs(Y[bn]), np.abs(Y[bn] - 1)).min(axis=1)
            mon.close("boundary-on-domain", gap, np.zeros(len(bn)), 1e-9, scale=1.0)
    elif kind == "Twist":
        mon.note("twist", {"volume": float(vols.sum())})
        mon.check("total-measure", 0.13 < vols.sum() < 0.25, f"twisted prism fills {vols.sum()} of its box")

    # ---- the requested size
    if "h" in case and d == 2:
        edges = np.array(sorted(ref.element_edges(E)))
        ln = np.linalg.norm(X[edges[:, 0]] - X[edges[:, 1]], axis=1)
        if kind == "CrossMesh":
            mon.check("element-size", ln.max() <= case["h"] * np.sqrt(2) * (1 + 1e-9), f"edge {ln.max()} for requested {case['h']}")
            cells = np.ceil(np.array(case["scale"]) / case["h"] - 1e-9)
            mon.check("element-size", len(E) <= 4 * np.prod(cells + 1), f"{len(E)} elements, {cells} cells requested")
        else:
            mon.le("element-size", float(np.median(ln) / case["h"]), 1.6, "median edge / requested size")
            mon.check("element-size", np.median(ln) > 0.3 * min(case["h"], size), f"median edge {np.median(ln)} for requested {case['h']}")
    mon.nontrivial(X, E)
    mon.note("mesh", {"nodes": len(X), "elements": len(E), "measure": float(vols.sum()), "extent": ext.tolist()})
    return X, E
