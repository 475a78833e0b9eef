"""Workload meshes: plain numpy, no code under test involved.

spec = {"shape": ..., ...} -> nodes (n, d), elements (m, d+1)
"""
import itertools

import numpy as np


def rng_of(*key):
    import hashlib

    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return np.random.default_rng(int.from_bytes(h, "little"))


def grid2d(nx, ny, rng, jitter=0.0, keep=None, diag="random", lx=1.0, ly=1.0):
    """Triangulated grid [0,lx]x[0,ly]; keep(i,j)->bool selects cells; interior jittered."""
    nodes = np.array([(lx * i / nx, ly * j / ny) for j in range(ny + 1) for i in range(nx + 1)])

    def idx(i, j):
        return j * (nx + 1) + i

    elements = []
    cells = set()
    for j in range(ny):
        for i in range(nx):
            if keep is not None and not keep(i, j):
                continue
            cells.add((i, j))
            a, b, c, d = idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)
            if diag == "cross":
                nodes = np.vstack([nodes, nodes[[a, b, c, d]].mean(axis=0)])
                m = len(nodes) - 1
                elements += [(a, b, m), (b, c, m), (c, d, m), (d, a, m)]
            elif diag == "right" or (diag == "random" and rng.random() < 0.5):
                elements += [(a, b, c), (a, c, d)]
            else:
                elements += [(a, b, d), (b, c, d)]
    elements = np.array(elements, dtype=np.int64)
    if jitter:
        h = min(lx / nx, ly / ny)
        count = {}
        for el in elements:
            for e in itertools.combinations(sorted(map(int, el)), 2):
                count[e] = count.get(e, 0) + 1
        boundary = {v for e, k in count.items() if k == 1 for v in e}
        inner = [v for v in range(len(nodes)) if v not in boundary]
        if inner:
            nodes[inner] += jitter * h * rng.uniform(-0.5, 0.5, size=(len(inner), 2))
    return nodes, elements


def grid3d(nx, ny, nz, rng, jitter=0.0, keep=None, size=(1.0, 1.0, 1.0)):
    lx, ly, lz = size
    nodes = np.array(
        [
            (lx * i / nx, ly * j / ny, lz * k / nz)
            for k in range(nz + 1)
            for j in range(ny + 1)
            for i in range(nx + 1)
        ]
    )

    def idx(p):
        i, j, k = p
        return (k * (ny + 1) + j) * (nx + 1) + i

    elements = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                if keep is not None and not keep(i, j, k):
                    continue
                for perm in itertools.permutations(range(3)):
                    p = [i, j, k]
                    tet = [idx(p)]
                    for ax in perm:
                        p = list(p)
                        p[ax] += 1
                        tet.append(idx(p))
                    elements.append(tet)
    elements = np.array(elements, dtype=np.int64)
    if jitter:
        h = min(lx / nx, ly / ny, lz / nz)
        count = {}
        for el in elements:
            for f in itertools.combinations(sorted(map(int, el)), 3):
                count[f] = count.get(f, 0) + 1
        boundary = {v for f, c in count.items() if c == 1 for v in f}
        inner = [v for v in range(len(nodes)) if v not in boundary]
        if inner:
            nodes[inner] += jitter * h * rng.uniform(-0.3, 0.3, size=(len(inner), 3))
    return nodes, elements


def spindle(k, n, rng):
    """n segments of an axis, each shared by k tetrahedra reaching to a common ring"""
    z = np.linspace(-1.0, 1.0, n + 1)
    axis = np.c_[0 * z, 0 * z, z]
    phi = 2 * np.pi * (np.arange(k) + rng.uniform(-0.2, 0.2, k)) / k
    r = rng.uniform(0.7, 1.3, k)
    ring = np.c_[r * np.cos(phi), r * np.sin(phi), rng.uniform(-0.2, 0.2, k)]
    elements = [[s, s + 1, n + 1 + i, n + 1 + (i + 1) % k] for s in range(n) for i in range(k)]
    return np.vstack([axis, ring]), np.array(elements, dtype=np.int64)


def drop_unused(nodes, elements):
    used = np.unique(elements)
    new = -np.ones(len(nodes), dtype=np.int64)
    new[used] = np.arange(len(used))
    return nodes[used], new[elements]


def delaunay2d(n, rng):
    from scipy.spatial import Delaunay

    side = max(1, int(np.sqrt(n)))
    corners = np.array([[0, 0], [1, 0], [1, 1], [0, 1.0]])
    t = np.arange(1, side) / side
    edge = np.concatenate(
        [
            np.c_[t, 0 * t],
            np.c_[0 * t + 1, t],
            np.c_[t, 0 * t + 1],
            np.c_[0 * t, t],
        ]
    )
    pts = [p for p in rng.uniform(0.5 / side, 1 - 0.5 / side, size=(40 * n, 2))]
    chosen = list(corners) + list(edge)
    for p in pts:
        if len(chosen) >= n + len(edge) + 4:
            break
        if min(np.hypot(*(p - q)) for q in chosen) > 0.45 / side:
            chosen.append(p)
    nodes = np.array(chosen)
    tri = Delaunay(nodes)
    elements = tri.simplices.astype(np.int64)
    vol = np.abs(signed_volumes(nodes, elements))
    return nodes, elements[vol > 1e-9]


def signed_volumes(nodes, elements):
    d = nodes.shape[1]
    e = nodes[elements[:, 1:]] - nodes[elements[:, :1]]
    fact = 2 if d == 2 else 6
    return np.linalg.det(e) / fact


def build(spec):
    """spec keys: shape, n, seed, [jitter, diag, lx, ly, shuffle, extra, affine, shift, size]"""
    rng = rng_of("mesh", spec.get("seed", 0))
    shape = spec["shape"]
    n = spec.get("n", 3)
    jit = spec.get("jitter", 0.0)
    diag = spec.get("diag", "random")
    lx, ly = spec.get("lx", 1.0), spec.get("ly", 1.0)
    if shape == "square":
        m = spec.get("m", n)
        nodes, elements = grid2d(n, m, rng, jit, None, diag, lx, ly)
    elif shape == "lshape":
        n = 2 * ((n + 1) // 2)
        nodes, elements = grid2d(
            n, n, rng, jit, lambda i, j: not (i >= n // 2 and j >= n // 2), diag, lx, ly
        )
    elif shape == "ushape":  # non-convex notch from the bottom
        n = 3 * ((n + 2) // 3)
        nodes, elements = grid2d(
            n,
            n,
            rng,
            jit,
            lambda i, j: not (n // 3 <= i < 2 * n // 3 and j < 2 * n // 3),
            diag,
            lx,
            ly,
        )
    elif shape == "hole":
        n = max(3, n)
        a, b = n // 3, n - n // 3
        nodes, elements = grid2d(
            n, n, rng, jit, lambda i, j: not (a <= i < b and a <= j < b), diag, lx, ly
        )
    elif shape == "delaunay":
        nodes, elements = delaunay2d(n * n, rng)
        nodes = nodes * np.array([lx, ly])
    elif shape == "single":
        nodes = np.array([[0.0, 0.0], [lx, 0.0], [0.2 * lx, ly]])
        elements = np.array([[0, 1, 2]])
    elif shape == "cube":
        nodes, elements = grid3d(n, n, n, rng, jit, None, spec.get("size", (1, 1, 1)))
    elif shape == "box":
        m = spec.get("m", 1)
        nodes, elements = grid3d(n, m, m, rng, jit, None, spec.get("size", (1, 1, 1)))
    elif shape == "lcube":
        n = 2 * ((n + 1) // 2)
        nodes, elements = grid3d(
            n, n, n // 2 or 1, rng, jit, lambda i, j, k: not (i >= n // 2 and j >= n // 2)
        )
    elif shape == "spindle":
        nodes, elements = spindle(int(rng.integers(3, 10)), n, rng)
    elif shape == "tet":
        nodes = np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0.1, 0.2, 1]])
        elements = np.array([[0, 1, 2, 3]])
    else:
        raise ValueError(shape)
    if spec.get("scale"):
        nodes = nodes * float(spec["scale"])
    nodes, elements = drop_unused(nodes, elements)
    if spec.get("affine") is not None:
        nodes = nodes @ np.array(spec["affine"], dtype=float).T
    if spec.get("shift") is not None:
        nodes = nodes + np.array(spec["shift"], dtype=float)
    if spec.get("extra"):  # nodes no element uses
        k = int(spec["extra"])
        lo, hi = nodes.min(axis=0), nodes.max(axis=0)
        ghosts = rng.uniform(lo - 0.3, hi + 0.7, size=(k, nodes.shape[1]))
        pos = np.sort(rng.integers(0, len(nodes) + 1, size=k))
        for q, p in enumerate(pos):
            at = int(p) + q
            nodes = np.insert(nodes, at, ghosts[q], axis=0)
            elements = elements + (elements >= at)
    if spec.get("shuffle"):
        perm = rng.permutation(len(nodes))
        inv = np.empty_like(perm)
        inv[perm] = np.arange(len(perm))
        nodes = nodes[perm]
        elements = inv[elements]
        elements = elements[rng.permutation(len(elements))]
        elements = np.array([rng.permutation(e) for e in elements])
    if spec.get("perm"):  # another numbering of the same mesh
        other = rng_of("perm", spec["perm"])
        perm = other.permutation(len(nodes))
        inv = np.empty_like(perm)
        inv[perm] = np.arange(len(perm))
        nodes, elements = nodes[perm], inv[elements]
        elements = elements[other.permutation(len(elements))]
        elements = np.array([other.permutation(e) for e in elements])
    return np.ascontiguousarray(nodes, dtype=float), np.ascontiguousarray(elements, dtype=np.int64)
