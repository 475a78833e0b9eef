"""Mesh import keeps the geometry."""
import os

import numpy as np

from vf import gen, meshes, ref, sut
from vf.gen import rng_of

RULE = (
    "random 2D/3D meshes given as raw arrays or files (several formats, mixed cells, z-padded), with nodes "
    "no element uses, shuffled numbering, positions and boundary predicates; non-trivial when nodes had to be "
    "dropped, renumbered or translated"
)
REQUIRED = ["node-bijection", "element-bijection", "edges", "translation", "dropped-nodes", "imported", "file-blocks", "typed", "total-volume"]
ASSUMPTIONS = ["input nodes are pairwise distinct"]

REGIONS2 = ["none", "bottom", "left", "right|top", "all", "bottom:0:0.5", "left|right"]
REGIONS3 = ["none", "bottom", "left", "right|top", "all", "back"]


def cases(tier, seed):
    n2, n3, nf, nj = (300, 80, 40, 2) if tier == "quick" else (1500, 400, 200, 12)
    out = []
    for i in range(n2 + n3 + nf + nj):
        rng = rng_of("C01", seed, i)
        three = n2 <= i < n2 + n3 or (i >= n2 + n3 and rng.random() < 0.3)
        spec = gen.mesh3(rng, 3) if three else gen.mesh2(rng, 6)
        if i % 30 == 7:
            spec = gen.large(spec, i // 30)
        if rng.random() < 0.7:
            spec["extra"] = int(rng.integers(1, 7))
        if rng.random() < 0.2:
            spec["scale"] = float(rng.choice([1e-2, 1e2]))
        reg = REGIONS3 if three else REGIONS2
        case = {
            "kind": "raw",
            "mesh": spec,
            "d": 3 if three else 2,
            "contact": str(rng.choice(reg)),
            "dirichlet": str(rng.choice(reg)),
            "move": np.round(rng.uniform(-3, 3, size=3 if three else 2), 3).tolist() if rng.random() < 0.5 else None,
        }
        if three and ("all" in (case["contact"], case["dirichlet"]) or set(case["contact"].split("|")) & set(case["dirichlet"].split("|"))):
            # faces claimed twice are C02's business
            case[str(rng.choice(["contact", "dirichlet"]))] = "none"
        if n2 + n3 <= i < n2 + n3 + nf:
            case["kind"] = "file"
            case["format"] = str(rng.choice(["vtk", "msh2", "vtu", "msh2"]))
            case["mixed"] = int(rng.random() < 0.5)
            case["blocks"] = int(rng.random() < 0.5)
        if i >= n2 + n3 + nf:
            case["jit"] = 1
        elif case["kind"] == "raw" and i % 5 == 2:  # other number types and memory layouts
            case["kind"] = "typed"
            case["nodes_as"] = str(rng.choice(["int64", "int32", "float32", "float64"]))
            case["elements_as"] = str(rng.choice(["int64", "int32", "uint32", "uint64", "int16"]))
            case["layout"] = str(rng.choice(["C", "F", "strided", "frozen"]))
        out.append(case)
    return out


def write_file(case, nodes, elements, mon):
    import meshio

    d = case["d"]
    pts = nodes if d == 3 else np.c_[nodes, np.zeros(len(nodes))]
    cells = []
    if case["mixed"]:
        faces = np.array([f for f, _ in ref.boundary_faces(elements)])
        cells.append(("line" if d == 2 else "triangle", faces))
    cells.append(("triangle" if d == 2 else "tetra", elements))
    if case["mixed"] and d == 3:
        cells = cells[::-1]
    if case.get("blocks") and len(elements) > 1:  # e.g. one block per material
        kind = "triangle" if d == 2 else "tetra"
        cut = 1 + len(elements) // 3
        lines = ("line", np.array([elements[0][:2]]))
        cells = [c for c in cells if c[0] != kind] + [(kind, elements[:cut]), lines, (kind, elements[cut:])]
        mon.seen("file-blocks")
    fmt = case["format"]
    ext = {"msh2": "msh"}.get(fmt, fmt)
    path = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), f"mesh-{os.getpid()}.{ext}")
    kw = {"file_format": "gmsh22"} if fmt == "msh2" else {}
    meshio.write(path, meshio.Mesh(pts, cells), **kw)
    return path


def laid(array, layout):
    if layout == "F":
        return np.asfortranarray(array)
    if layout == "strided":
        wide = np.zeros((2 * len(array), array.shape[1] + 1), dtype=array.dtype)
        wide[::2, 1:] = array
        return wide[::2, 1:]
    if layout == "frozen":
        array = array.copy()
        array.setflags(write=False)
    return array


def run(case, mon):
    c = sut.C()
    spec = case["mesh"]
    nodes, elements = meshes.build(spec)
    unit0 = sut.to_unit(spec)
    if case["kind"] == "typed":
        ext = float(np.ptp(nodes))
        if case["nodes_as"].startswith("int"):
            unit0 = lambda x, u=sut.to_unit(spec): u(np.asarray(x) * ext / 1e5)
            nodes = np.round(nodes / ext * 1e5)
        nodes = laid(nodes.astype(case["nodes_as"]), case["layout"])
        elements = laid(elements.astype(case["elements_as"]), case["layout"])
        mon.seen(f"{case['nodes_as']} {case['elements_as']} {case['layout']}")
    move = None if case["move"] is None else np.array(case["move"])
    offset = np.zeros(case["d"])
    if move is not None:
        offset = move - nodes.min(axis=0).astype(float)
    unit = lambda x: unit0(x - offset)
    bnd = sut.boundaries({"contact": case["contact"], "dirichlet": case["dirichlet"]}, unit)
    if case["kind"] == "file":
        path = write_file(case, nodes, elements, mon)
        descr = c.md.ImportedMeshDescription(initial_position=move, path=path)
        mon.seen("imported")
    elif case["kind"] == "typed":
        descr = sut.raw_descr(nodes, elements, move, share=True)
        nodes, elements = nodes.astype(float), elements.astype("int64")
        mon.seen("typed")
    else:
        descr = sut.raw_descr(nodes, elements, move)
    mesh = c.Mesh(descr, bnd)
    used = np.unique(elements)
    want = nodes[used] + offset
    got = np.asarray(mesh.nodes, dtype=float)
    scale = np.abs(want).max() + 1.0
    size = np.ptp(want, axis=0).max()
    mon.seen("dropped-nodes", len(nodes) - len(used))
    if not mon.check(
        "node-bijection",
        got.shape == want.shape,
        lambda: f"{got.shape} nodes for {want.shape} connected input nodes",
    ):
        return
    dist = np.linalg.norm(got[:, None, :] - want[None], axis=2)
    near = dist.argmin(axis=1)
    ok = len(set(near.tolist())) == len(near) and dist.min(axis=1).max() < 1e-9 * scale
    if not mon.check("node-bijection", ok, lambda: f"nodes moved by {dist.min(axis=1).max():.3e}"):
        return
    if move is not None and not spec.get("extra"):
        mon.close("translation", got.min(axis=0), move, 1e-9, scale=scale)
    elif move is not None:
        mon.seen("translation")
    back = used[near]
    out_el = sorted(tuple(sorted(int(back[v]) for v in el)) for el in np.asarray(mesh.elements))
    in_el = sorted(tuple(sorted(int(v) for v in el)) for el in elements)
    mon.check("element-bijection", out_el == in_el, lambda: "elements differ: " + str(set(in_el) ^ set(out_el))[:300])
    edges = np.asarray(mesh.edges)
    pairs = [tuple(sorted(map(int, e))) for e in edges]
    mon.check(
        "edges",
        len(pairs) == len(set(pairs)) and set(pairs) == ref.element_edges(mesh.elements),
        "edge list is not exactly the set of element edges",
    )
    mon.close(
        "total-volume",
        np.abs(meshes.signed_volumes(got, np.asarray(mesh.elements))).sum(),
        np.abs(meshes.signed_volumes(nodes, elements)).sum(),
        1e-7 * (1 + scale / size) ** 2,
    )
    mon.check(
        "counts",
        mesh.nodes_count == len(want) and mesh.dimension == case["d"] and mesh.edges_number == len(pairs),
        "reported counts disagree with the mesh",
    )
    mon.close("scale", mesh.scale, np.ptp(want, axis=0), 1e-8, scale=scale)
    mon.nontrivial(got, out_el)
    mon.note("mesh", {"in_nodes": len(nodes), "out_nodes": len(got), "elements": len(out_el), "moved": case["move"]})
