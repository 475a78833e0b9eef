"""Mechanical scenarios: one JSON spec -> the real problem and its independent reference."""
import numpy as np

from vf import gen, ref, sut
from vf.core import Skip
from vf.gen import f, rng_of

PARTITIONS = [
    # (contact, dirichlet)  -- *touching* when a contact face ends in a Dirichlet node
    ("bottom", "top"),
    ("right", "left"),
    ("bottom", "left"),
    ("bottom|right", "left"),
    ("left:0:0.5", "right"),
    ("right", "left|top"),
    ("top", "bottom"),
    ("none", "left"),
]


def load(rng, d, size=1.0, kinds=("one",)):
    spec = {"const": np.round(rng.uniform(-1, 1, size=d) * size, 4).tolist(), "amp": str(rng.choice(kinds))}
    if rng.random() < 0.5:
        spec["lin"] = np.round(rng.uniform(-0.5, 0.5, size=(d, d)) * size, 4).tolist()
    return spec


def law(rng, kinds=("slope", "gap", "cubic", "adhesive", "friction")):
    kind = str(rng.choice(kinds))
    s = {"law": kind, "p": f(np.exp(rng.uniform(np.log(0.5), np.log(60))), 3), "g": 0.0}
    if kind in ("gap", "adhesive", "cubic", "evolving"):
        s["g"] = f(rng.uniform(-0.05, 0.05), 4)
    if kind in ("friction", "evolving"):
        s["fr"] = f(rng.uniform(0.1, 1.5), 3)
        s["eps"] = 0.1
    return s


def field(spec, d):
    """initial fields: {'const': [...], 'lin': [[...]], 'wave': a} -> f(nodes) (n, d)"""
    const = np.array(spec.get("const", [0.0] * d), dtype=float)
    lin = np.array(spec.get("lin", np.zeros((d, d))), dtype=float)
    wave = float(spec.get("wave", 0.0))

    def values(x):
        x = np.asarray(x, dtype=float)
        return const[None, :] + x @ lin.T + wave * np.sin(2.0 * x[:, ::-1] + 0.3)

    return values


def mesh2(rng, nmax=4):
    spec = gen.mesh2(rng, nmax, shapes=["square", "square", "lshape", "hole", "delaunay", "ushape"], wild=False)
    spec["jitter"] = f(rng.choice([0.0, 0.3, 0.4]))
    if spec["shape"] == "square":
        spec["m"] = int(rng.integers(2, nmax + 1))
    if rng.random() < 0.4:
        spec["affine"] = gen.affine2(rng, 0.4)
    if rng.random() < 0.4:
        spec["shift"] = np.round(rng.uniform(-2, 2, size=2), 3).tolist()
    return spec


class Scenario:
    """The description of one mechanical problem, and the reference on the mesh the code built."""

    def __init__(self, s):
        self.s = s
        self.d = s.get("d", 2)
        self.descr, _, _ = sut.descr(s["mesh"], bool(s.get("share")))
        self.unit = sut.to_unit(s["mesh"])
        self.is_contact = sut.region(s["contact"], self.unit)
        self.is_dirichlet = sut.region(s["dirichlet"], self.unit)
        c = s.get("c")
        self.value = None
        kw = {"contact": self.is_contact}
        if c is None:
            kw["dirichlet"] = self.is_dirichlet
        else:
            c0, c1 = float(c[0]), np.array(c[1], dtype=float)
            self.value = lambda x: c0 + np.asarray(x) @ c1
            kw["dirichlet"] = (self.is_dirichlet, self.value)
        if s.get("piezo_dirichlet"):
            self.is_piezo = sut.region(s["piezo_dirichlet"], self.unit)
            if s.get("pc") is None:
                # given by its predicate alone: values are zero
                self.piezo_value = lambda x: np.zeros(len(x))
                kw["piezo_dirichlet"] = self.is_piezo
            else:
                p0, p1 = float(s["pc"][0]), np.array(s["pc"][1], dtype=float)
                self.piezo_value = lambda x: p0 + np.asarray(x) @ p1
                kw["piezo_dirichlet"] = (self.is_piezo, self.piezo_value)
        self.bnd = sut.C().BoundariesDescription(**kw)
        self.law = sut.law(s["law"]) if s.get("law") else None
        self.f_in = sut.vec_field(s["inner"], s.get("fd", self.d))
        self.f_out = sut.vec_field(s["outer"], s.get("fd", self.d))
        self.calls = []

    def inner(self, x, t=None, *, v=None):
        return self.f_in(x, t)

    def outer(self, x, t=None, *, v=None):
        return self.f_out(x, t)

    # ------------------------------------------------------------------ reference
    def bind(self, mesh):
        self.X = np.array(mesh.nodes, dtype=float)
        self.E = np.array(mesh.elements)
        self.fem = ref.Fem(self.X, self.E)
        faces = self.fem.boundary()
        self.contact_faces, self.normals, self.neumann, self.dirichlet_faces = [], [], [], []
        for fc, opp in faces:
            m = self.X[list(fc)].mean(axis=0)
            ic, idr = self.is_contact(m), self.is_dirichlet(m)
            if ic:
                self.contact_faces.append(fc)
                self.normals.append(self.fem.outward_normal(fc, opp))
            if idr:
                self.dirichlet_faces.append(fc)
            if not ic and not idr:
                self.neumann.append(fc)
        bn = {v for fc, _ in faces for v in fc}
        self.bnodes = sorted(bn)
        self.dn = np.array(sorted(v for v in bn if self.is_dirichlet(self.X[v])), dtype=int)
        on_contact = {v for fc in self.contact_faces for v in fc}
        self.touching = bool(set(self.dn.tolist()) & on_contact)
        # ends of contact faces which the predicate does not claim (partial contact side)
        self.loose = np.array(sorted(v for v in on_contact - set(self.dn.tolist()) if not self.is_contact(self.X[v])), dtype=int)
        self.cval = np.zeros(len(self.dn)) if self.value is None else self.value(self.X[self.dn])
        n = len(self.X)
        self.n = n
        self.fixed = np.concatenate([self.dn + a * n for a in range(self.d)]) if len(self.dn) else np.zeros(0, int)
        self.fixed_values = np.tile(self.cval, self.d)
        self.fixed1 = self.dn
        return self

    def force(self, t, comps=None):
        comps = comps or self.s.get("fd", self.d)
        vin = np.array([self.f_in(x, t) for x in self.X]).reshape(self.n, comps)
        vout = np.array([self.f_out(x, t) for x in self.X]).reshape(self.n, comps)
        return ref.stack(self.fem.body_load(vin) + self.fem.surface_load(self.neumann, vout))

    def minimum(self, A, b, static, dt, variant="true", old=None, dim=None):
        """variant 'true': the stated problem.  'perturbed': Dirichlet entries take part in the
        contact energy as if free (recorded finding of the global and direct methods).
        'old': free ends of contact faces that are not contact nodes enter the contact energy with
        the previous values (recorded finding of the Schur method)."""
        dim = dim or self.d
        fixed = self.fixed if dim == self.d else self.fixed1
        vals = self.fixed_values if dim == self.d else self.cval
        contact = None
        if self.law is not None and self.contact_faces:
            contact = ref.Contact(self.X, self.contact_faces, self.normals, self.law, dim)
        if variant == "true" or contact is None:
            return ref.Minimum(A, b, contact, static, dt, fixed, vals)
        if variant == "perturbed":
            A2, b2 = A.copy(), b - A[:, fixed] @ vals
            A2[:, fixed] = 0
            A2[fixed, :] = 0
            A2[fixed, fixed] = 1
            b2[fixed] = vals
            return ref.Minimum(A2, b2, contact, static, dt, np.zeros(0, int), np.zeros(0))
        out = np.concatenate([self.loose + a * self.n for a in range(dim)]).astype(int)
        contact = ref.Frozen(contact, out, np.asarray(old)[out])
        return ref.Minimum(A, b, contact, static, dt, fixed, vals)


def variants(sc, method):
    """recorded findings that can explain a deviation of this scenario solved with this method"""
    if method == "schur":
        return (("old", "free-node-on-contact-face"),) if len(sc.loose) else ()
    return (("perturbed", "dirichlet-node-in-contact"),) if sc.touching else ()


def least(A):
    """energy of entries of 1e-3: the minimisers work to an absolute accuracy near 1e-5"""
    return max(1e-6 * float(np.trace(A)), 1e-300)


def distance(mini, x, start=None):
    """(relative energy-norm distance of x from the minimiser, minimiser)"""
    xr = mini.solve(x0=x if start is None else start)
    A = mini.A
    e = x - xr
    lin = mini.b[mini.free] @ np.linalg.solve(A[np.ix_(mini.free, mini.free)], mini.b[mini.free])
    scale = max(float(xr @ A @ xr), abs(float(lin)), least(A))
    return float(np.sqrt(max(float(e @ A @ e), 0.0) / scale)), xr


def judge(mon, name, make, x, tol, variants=(), detail=""):
    """make(variant) -> Minimum.  The stated problem must hold; when it does not but a recorded
    finding's variant explains the result, the violation carries that finding's key."""
    x = np.asarray(x, dtype=float)
    mon.seen(name)
    if not np.isfinite(x).all():
        mon.fail(name, f"{detail} non-finite solution")
        return False
    err, xr = distance(make("true"), x)
    # the minimisers differentiate with a fixed step, which costs accuracy for huge unknowns
    tol = tol * max(1.0, float(np.abs(xr).max(initial=0.0)) / 30.0)
    if err <= tol:
        mon.margin[name] = max(mon.margin.get(name, 0.0), err / tol)
        return True
    for variant, key in variants:
        other, xo = distance(make(variant), x)
        free = make("true").free
        xo2 = x.copy()
        xo2[free] = xo[free]
        A = make("true").A
        e = x - xo2
        scale = max(float(xr @ A @ xr), least(A))
        other = float(np.sqrt(max(float(e @ A @ e), 0.0) / scale))
        if other <= tol:
            mon.fail(name, f"{detail} relative energy error {err:.3e}; explained by '{variant}' ({other:.1e})", key)
            return False
    i = int(np.argmax(np.abs(x - xr)))
    mon.fail(name, f"{detail} relative energy error {err:.3e} > {tol:.1e}; worst entry {i}: got {x[i]:.8g}, minimiser {xr[i]:.8g}")
    return False
