"""Independent reference for linear simplicial finite elements (2D and 3D).

Nothing here imports the code under test.  Vectors are stacked by component:
[x of all nodes, y of all nodes(, z of all nodes)].
"""
import itertools

import numpy as np


class Fem:
    def __init__(self, nodes, elements):
        self.nodes = np.asarray(nodes, dtype=float)
        self.elements = np.asarray(elements, dtype=np.int64)
        self.n, self.d = self.nodes.shape
        d = self.d
        ones = np.ones((len(self.elements), d + 1, 1))
        mats = np.concatenate([ones, self.nodes[self.elements]], axis=2)  # rows [1, x_i]
        inv = np.linalg.inv(mats)  # columns: coefficients of phi_i
        self.grads = np.moveaxis(inv[:, 1:, :], 1, 2)  # (e, i, k) = d_k phi_i
        fact = {2: 2.0, 3: 6.0}[d]
        self.vol = np.abs(np.linalg.det(mats)) / fact

    # -------------------------------------------------------------- assembly helpers
    def _scatter(self, local):
        """local (e, i, j) -> (n, n)"""
        out = np.zeros((self.n, self.n))
        e = self.elements
        for i in range(self.d + 1):
            for j in range(self.d + 1):
                np.add.at(out, (e[:, i], e[:, j]), local[:, i, j])
        return out

    def grad_grad(self, k, l, weight=None):
        """int d_k phi_i d_l phi_j"""
        w = self.vol if weight is None else self.vol * np.asarray(weight)
        return self._scatter(w[:, None, None] * self.grads[:, :, None, k] * self.grads[:, None, :, l])

    def mass(self):
        d = self.d
        loc = (np.ones((d + 1, d + 1)) + np.eye(d + 1)) / ((d + 1) * (d + 2))
        return self._scatter(self.vol[:, None, None] * loc[None])

    def phi_grad(self, k):
        """int phi_i d_k phi_j"""
        d = self.d
        loc = np.repeat(self.grads[:, None, :, k], d + 1, axis=1) / (d + 1)
        return self._scatter(self.vol[:, None, None] * loc)

    # -------------------------------------------------------------- operators
    def elasticity(self, mu, la, weight=None):
        """int 2 mu eps(u):eps(v) + la div u div v, block (a, b): test component a, trial b"""
        d, n = self.d, self.n
        out = np.zeros((d * n, d * n))
        w = self.vol if weight is None else self.vol * np.asarray(weight)
        for a in range(d):
            for b in range(d):
                loc = (
                    la * self.grads[:, :, None, a] * self.grads[:, None, :, b]
                    + mu * self.grads[:, :, None, b] * self.grads[:, None, :, a]
                )
                if a == b:
                    loc = loc + mu * np.einsum("eik,ejk->eij", self.grads, self.grads)
                out[a * n : (a + 1) * n, b * n : (b + 1) * n] = self._scatter(
                    w[:, None, None] * loc
                )
        return out

    def block_mass(self, rho):
        return np.kron(np.eye(self.d), rho * self.mass())

    def diffusion(self, coeff):
        """int C[k][l] d_k phi_i d_l phi_j"""
        c = np.asarray(coeff, dtype=float)
        loc = np.einsum("eik,kl,ejl->eij", self.grads, c, self.grads)
        return self._scatter(self.vol[:, None, None] * loc)

    def laplace(self, c=1.0):
        return self.diffusion(c * np.eye(self.d))

    def thermal_expansion(self, coeff):
        """rows: temperature test, columns: velocity components; int phi_i C[a][k] d_k phi_j"""
        c = np.asarray(coeff, dtype=float)
        return np.hstack(
            [sum(c[a, k] * self.phi_grad(k) for k in range(self.d)) for a in range(self.d)]
        )

    def piezo(self, coeff):
        """the documented 2D contraction of the third order tensor"""
        c = np.asarray(coeff, dtype=float)
        W = [[self.grad_grad(k, l) for l in range(2)] for k in range(2)]
        a11 = c[0][0][0] * W[0][0] + c[0][1][1] * W[1][1]
        a12 = c[0][1][0] * W[1][0] + c[0][0][1] * W[0][1]
        a21 = c[1][1][0] * W[1][0] + c[1][0][1] * W[0][1]
        a22 = c[1][0][0] * W[0][0] + c[1][1][1] * W[1][1]
        return np.hstack([a11 + a12, a22 + a21])

    def relaxation(self, coeff):
        c = np.asarray(coeff, dtype=float)
        out = np.zeros((2 * self.n, 2 * self.n))
        n = self.n
        for a in range(2):
            blocks = (
                c[a][0][0] * self.grad_grad(0, 0) + c[a][1][1] * self.grad_grad(1, 1),
                c[a][1][0] * self.grad_grad(1, 0) + c[a][0][1] * self.grad_grad(0, 1),
            )
            out[a * n : (a + 1) * n, a * n : (a + 1) * n] = blocks[0]
            out[a * n : (a + 1) * n, (1 - a) * n : (2 - a) * n] = blocks[1]
        return out

    # -------------------------------------------------------------- loads
    def body_load(self, values):
        """values (n, c) nodal densities.  Every element hands vol/(d+1) times the mean of the
        densities at the *other* vertices to each of its vertices (exact for uniform fields,
        total preserving for affine ones)."""
        values = np.asarray(values, dtype=float)
        out = np.zeros_like(values)
        d = self.d
        for i in range(d + 1):
            others = [j for j in range(d + 1) if j != i]
            share = values[self.elements[:, others]].mean(axis=1) * (self.vol / (d + 1))[:, None]
            np.add.at(out, self.elements[:, i], share)
        return out

    def surface_load(self, faces, values):
        values = np.asarray(values, dtype=float)
        out = np.zeros_like(values)
        for f in faces:
            s = face_size(self.nodes, f) / len(f)
            for v in f:
                out[v] += s * values[v]
        return out

    # -------------------------------------------------------------- topology
    def boundary(self):
        """[(face node tuple (sorted), opposite vertex)] of faces owned by one element"""
        return boundary_faces(self.elements)

    def outward_normal(self, face, opposite):
        return outward_normal(self.nodes, face, opposite)


def face_size(nodes, f):
    p = nodes[list(f)]
    if len(f) == 2:
        return float(np.linalg.norm(p[1] - p[0]))
    return 0.5 * float(np.linalg.norm(np.cross(p[1] - p[0], p[2] - p[0])))


def boundary_faces(elements):
    owner = {}
    for el in elements:
        el = [int(v) for v in el]
        for i, v in enumerate(el):
            f = tuple(sorted(el[:i] + el[i + 1 :]))
            owner.setdefault(f, []).append(v)
    return [(f, o[0]) for f, o in sorted(owner.items()) if len(o) == 1]


def outward_normal(nodes, face, opposite):
    p = nodes[list(face)]
    if len(face) == 2:
        t = p[1] - p[0]
        normal = np.array([t[1], -t[0]])
    else:
        normal = np.cross(p[1] - p[0], p[2] - p[0])
    normal = normal / np.linalg.norm(normal)
    if np.dot(nodes[opposite] - p[0], normal) > 0:
        normal = -normal
    return normal


def element_edges(elements):
    out = set()
    for el in elements:
        for a, b in itertools.combinations(sorted(int(v) for v in el), 2):
            out.add((a, b))
    return out


def stack(a):
    """(n, d) -> component-stacked vector"""
    return np.asarray(a, dtype=float).T.ravel()


def unstack(v, d):
    return np.asarray(v, dtype=float).reshape(d, -1).T


class Contact:
    """Contact energy on boundary faces: every face carries len(face)+1 equally weighted
    quadrature points (the mean and the vertices)."""

    def __init__(self, nodes, faces, normals, law, dim_var, deflection=True):
        self.deflection = deflection  # a scalar unknown whose displacement is a deflection
        self.nodes, self.faces, self.normals = nodes, [tuple(map(int, f)) for f in faces], normals
        self.law = law
        self.dim = dim_var

    def points(self):
        for f, nrm in zip(self.faces, self.normals):
            k = len(f)
            w = face_size(self.nodes, f) / (k + 1)
            basis = [np.full(k, 1.0 / k)] + [np.eye(k)[i] for i in range(k)]
            for b in basis:
                yield f, nrm, w, b

    def _sd(self, f, nrm, static):
        mean = static[list(f)].mean(axis=0)
        if self.dim == 1 and self.deflection:
            return float(mean[0]), np.empty(0)
        sn = float(mean @ nrm)
        return sn, mean - sn * nrm

    def energy(self, var, static, dt):
        """var (n, dim) current unknown, static (n, d) frozen displacement"""
        law = self.law
        total = 0.0
        for f, nrm, w, b in self.points():
            vm = b @ var[list(f)]
            sn, st = self._sd(f, nrm, static)
            if self.dim == 1:
                vn, vt = float(vm[0]), np.empty(0)
            else:
                vn = float(vm @ nrm)
                vt = vm - vn * nrm
            total += w * (
                law.normal_bound(vn, sn, dt) * law.potential_normal_direction(vn, sn, dt)
                + law.tangential_bound(vn, sn, dt)
                * law.potential_tangential_direction(vt, st, dt)
            )
        return total

    def local(self, var, static, dt, h=1e-6):
        """gradient (n, dim) and Hessian list by central differences of the per-point law"""
        n = len(self.nodes)
        dim = self.dim
        grad = np.zeros((n, dim))
        hess = np.zeros((dim * n, dim * n))
        law = self.law
        for f, nrm, w, b in self.points():
            vm = b @ var[list(f)]
            sn, st = self._sd(f, nrm, static)

            def phi(z):
                if dim == 1:
                    vn, vt = float(z[0]), np.empty(0)
                else:
                    vn = float(z @ nrm)
                    vt = z - vn * nrm
                return law.normal_bound(vn, sn, dt) * law.potential_normal_direction(
                    vn, sn, dt
                ) + law.tangential_bound(vn, sn, dt) * law.potential_tangential_direction(
                    vt, st, dt
                )

            g = np.zeros(dim)
            H = np.zeros((dim, dim))
            p0 = phi(vm)
            eye = np.eye(dim)
            h2 = 1e-4
            for a in range(dim):
                g[a] = (phi(vm + h * eye[a]) - phi(vm - h * eye[a])) / (2 * h)
            for a in range(dim):
                for c in range(dim):
                    if a == c:
                        H[a, a] = (phi(vm + h2 * eye[a]) - 2 * p0 + phi(vm - h2 * eye[a])) / h2**2
                    else:
                        H[a, c] = (
                            phi(vm + h2 * (eye[a] + eye[c]))
                            - phi(vm + h2 * (eye[a] - eye[c]))
                            - phi(vm - h2 * (eye[a] - eye[c]))
                            + phi(vm - h2 * (eye[a] + eye[c]))
                        ) / (4 * h2**2)
            for i, v in enumerate(f):
                grad[v] += w * b[i] * g
                for j, u in enumerate(f):
                    for a in range(dim):
                        for c in range(dim):
                            hess[a * n + v, c * n + u] += w * b[i] * b[j] * H[a, c]
        return grad, hess


class Minimum:
    """J(x) = 1/2 x'Ax - b'x + contact(x) over x with prescribed entries."""

    def __init__(self, A, b, contact, static, dt, fixed, values):
        self.A, self.b = A, b
        self.contact, self.static, self.dt = contact, static, dt
        self.N = len(b)
        self.fixed = np.zeros(self.N, dtype=bool)
        self.fixed[fixed] = True
        self.values = np.zeros(self.N)
        self.values[fixed] = values
        self.free = ~self.fixed

    def J(self, x):
        e = 0.5 * x @ self.A @ x - self.b @ x
        if self.contact is not None:
            e += self.contact.energy(unstack(x, self.contact.dim), self.static, self.dt)
        return float(e)

    def residual(self, x):
        r = self.A @ x - self.b
        if self.contact is not None:
            g, _ = self.contact.local(unstack(x, self.contact.dim), self.static, self.dt)
            r = r + stack(g)
        return r

    def solve(self, x0=None, iters=60):
        x = np.zeros(self.N) if x0 is None else np.array(x0, dtype=float)
        x[self.fixed] = self.values[self.fixed]
        f = self.free
        if self.contact is None:
            x[f] = np.linalg.solve(
                self.A[np.ix_(f, f)], self.b[f] - self.A[np.ix_(f, self.fixed)] @ x[self.fixed]
            )
            return x
        Jx = self.J(x)
        for _ in range(iters):
            g, H = self.contact.local(unstack(x, self.contact.dim), self.static, self.dt)
            r = self.A @ x - self.b + stack(g)
            K = self.A + H
            step = np.linalg.solve(K[np.ix_(f, f)], -r[f])
            slope = float(r[f] @ step)
            t, ok = 1.0, False
            for _ in range(30):
                y = x.copy()
                y[f] += t * step
                Jy = self.J(y)
                if Jy <= Jx + 1e-4 * t * slope + 1e-15 * abs(Jx):
                    ok = True
                    break
                t *= 0.5
            if not ok:
                break
            x, Jx = y, Jy
            if np.abs(t * step).max() <= 1e-11 * (1e-12 + np.abs(x).max()):
                break
        return x


class Unilateral(Minimum):
    """The same energy over x with x[lower] >= 0 (active set iteration; convex energies)."""

    def __init__(self, mini, lower):
        self.__dict__.update(mini.__dict__)
        self.base = mini
        self.lower = np.array(lower, dtype=int)
        self.active = np.zeros(0, dtype=int)

    def solve(self, x0=None, iters=60):
        base = self.base
        active = np.zeros(self.N, dtype=bool)
        lower = np.zeros(self.N, dtype=bool)
        lower[self.lower] = True
        seen = set()
        x = None
        for _ in range(200):
            fixed = base.fixed | active
            values = np.where(base.fixed, base.values, 0.0)
            m = Minimum(base.A, base.b, base.contact, base.static, base.dt, np.where(fixed)[0], values[fixed])
            x = m.solve(x0=x0, iters=iters)
            r = base.residual(x)
            new = lower & ((active & (r > 0)) | (~active & (x < 0)))
            if (new == active).all():
                break
            key = new.tobytes()
            if key in seen:  # one at a time, to rule out cycling
                diff = np.where(new != active)[0]
                new = active.copy()
                new[diff[0]] = not new[diff[0]]
            seen.add(key)
            active = new
        self.active = np.where(active)[0]
        return x


class Frozen:
    """A contact energy that sees given values instead of the prescribed entries."""

    def __init__(self, contact, fixed, values):
        self.contact, self.fixed, self.values = contact, fixed, values
        self.dim = contact.dim

    def _see(self, var):
        x = stack(var).copy()
        x[self.fixed] = self.values
        return unstack(x, self.dim)

    def energy(self, var, static, dt):
        return self.contact.energy(self._see(var), static, dt)

    def local(self, var, static, dt, h=1e-6):
        g, H = self.contact.local(self._see(var), static, dt, h)
        gs = stack(g).copy()
        gs[self.fixed] = 0
        H = H.copy()
        H[self.fixed, :] = 0
        H[:, self.fixed] = 0
        return unstack(gs, self.dim), H
