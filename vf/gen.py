"""Seeded generators of mesh specs and physical parameters."""
import numpy as np

from vf.meshes import rng_of

SHAPES2 = ["square", "lshape", "ushape", "hole", "delaunay", "single"]
SHAPES3 = ["cube", "box", "lcube", "tet", "spindle"]


def f(x, k=6):
    return float(np.round(float(x), k))


def affine2(rng, strength=0.6):
    a = rng.uniform(0, 2 * np.pi)
    rot = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    s = np.diag(rng.uniform(0.6, 1.8, size=2))
    sh = np.array([[1.0, strength * rng.uniform(-1, 1)], [0, 1.0]])
    m = rot @ s @ sh
    if rng.random() < 0.3:
        m = m @ np.diag([-1.0, 1.0])
    return np.round(m, 6).tolist()


def rotation(rng, d):
    if d == 2:
        a = rng.uniform(0, 2 * np.pi)
        return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def mesh2(rng, nmax=4, shapes=None, wild=True):
    shape = str(rng.choice(shapes or SHAPES2))
    spec = {
        "shape": shape,
        "n": int(rng.integers(2, nmax + 1)),
        "seed": int(rng.integers(0, 2**31)),
        "jitter": f(rng.choice([0.0, 0.3, 0.6])),
        "diag": str(rng.choice(["random", "right", "left", "cross"])),
        "lx": f(rng.uniform(0.5, 2.5), 3),
        "ly": f(rng.uniform(0.5, 2.5), 3),
        "shuffle": int(rng.random() < 0.8),
    }
    if shape == "square":
        spec["m"] = int(rng.integers(1, nmax + 1))
    if spec["diag"] == "cross":
        spec["n"] = min(spec["n"], 3)
        spec["jitter"] = min(spec["jitter"], 0.3)
    if wild and rng.random() < 0.5:
        spec["affine"] = affine2(rng)
    if wild and rng.random() < 0.5:
        spec["shift"] = np.round(rng.uniform(-5, 5, size=2), 3).tolist()
    return spec


def mesh3(rng, nmax=2, shapes=None, wild=True):
    shape = str(rng.choice(shapes or SHAPES3))
    spec = {
        "shape": shape,
        "n": int(rng.integers(1, nmax + 1)),
        "seed": int(rng.integers(0, 2**31)),
        "jitter": f(rng.choice([0.0, 0.4])),
        "shuffle": int(rng.random() < 0.8),
    }
    if shape in ("cube", "box"):
        spec["size"] = np.round(rng.uniform(0.5, 2.0, size=3), 3).tolist()
    if shape == "lcube":
        spec["n"] = 2
    if wild and rng.random() < 0.5:
        m = rotation(rng, 3) @ np.diag(rng.uniform(0.7, 1.6, size=3))
        spec["affine"] = np.round(m, 6).tolist()
    if wild and rng.random() < 0.5:
        spec["shift"] = np.round(rng.uniform(-3, 3, size=3), 3).tolist()
    return spec


def large(spec, i):
    """sizes far beyond the usual ones: the same spec on a long strip, a fine square or a fine block"""
    rng = rng_of("large", spec.get("seed", 0), i)
    out = dict(spec, jitter=min(spec.get("jitter", 0.0), 0.3))
    if spec["shape"] in SHAPES3:
        out["shape"] = "box"
        out["n"], out["m"] = [(12, 1), (5, 3), (24, 1)][i % 3]
        out.setdefault("size", [1.0, 1.0, 1.0])
        if spec["shape"] in ("lcube", "tet", "spindle"):
            out["size"] = [1.0, 1.0, 1.0]
        return out
    out["shape"], out["diag"] = "square", "random"
    n = int(rng.integers(70, 140))
    out["n"], out["m"] = [(n, 1), (15, 14), (1, n), (40, 4)][i % 4]
    return out


def coef(rng, lo=0.5, hi=9.0):
    return f(np.exp(rng.uniform(np.log(lo), np.log(hi))), 4)


__all__ = ["rng_of", "mesh2", "mesh3", "coef", "rotation", "affine2", "f"]
