"""Evolution runs: one JSON spec -> a run of the real solver and the trace of its states,
and an independent description of every step (matrix, load vector, contact energy)."""
import contextlib
import io

import numpy as np

from vf import ref, scen, sut
from vf.core import Skip
from vf.gen import coef, f

KINDS = ("quasistatic", "dynamic", "relaxation", "temperature", "piezo_quasistatic", "piezo_dynamic", "wave")
COUPLED = ("temperature", "piezo_quasistatic", "piezo_dynamic")
RHO = {"piezo_quasistatic": 0.1, "piezo_dynamic": 0.1}


def tensor3(spec, t):
    """relaxation tensor: base * (1 + rate * t) or base * exp(-rate t)"""
    base = np.array(spec["base"], dtype=float)
    rate = float(spec.get("rate", 0.0))
    form = spec.get("form", "lin")
    if form == "exp":
        factor = np.exp(-rate * t)
    elif form == "switch":
        factor = 1.0 if t < spec["at"] else 2.0
    else:
        factor = 1.0 + rate * t
    if spec.get("only"):  # one entry alone changes in time (i, j, j: it multiplies a stiffness block)
        i, j = spec["only"]
        base[i, j, j] *= factor
        return base
    return base * factor


class Snap:
    """copies of the fields of one observed state"""

    NAMES = ("absement", "displacement", "velocity", "displaced_nodes", "temperature", "electric_potential")

    def __init__(self, state):
        self.time = float(state.time)
        for k in self.NAMES:
            v = getattr(state, k, None)
            setattr(self, k, None if v is None else np.array(v, dtype=float))

    def diff(self, state):
        """largest difference of any field between this snapshot and the state now"""
        worst = abs(self.time - float(state.time))
        for k in self.NAMES:
            v = getattr(self, k)
            if v is not None:
                worst = max(worst, float(np.abs(v - np.asarray(getattr(state, k), dtype=float)).max(initial=0)))
        return worst


class Evo(scen.Scenario):
    def __init__(self, s):
        super().__init__(s)
        self.kind = s["kind"]
        self.dt = float(s["dt"])
        self.dim = 1 if self.kind == "wave" else 2
        self.law2 = sut.law(s["law2"]) if s.get("law2") else None
        # prescribed values are per node; the scalar unknown of a membrane takes them too
        self.problem = self.make_problem()

    def make_problem(self):
        s = self.s
        if self.kind == "wave":
            law_ = self.law() if self.law is not None else None
            return sut.wave_problem(self.descr, self.bnd, s["prop"], self.dt, law_, self.inner, self.outer, s.get("interior", False))
        extra = {}
        if self.kind == "relaxation":
            self.tensor = lambda t: tensor3(s["relax"], 0.0 if t is None else float(t))
            extra["relaxation"] = lambda t=None: self.tensor(t)
            if s["relax"].get("buffer"):  # a user's function that fills and returns the same array every time
                buffer = np.zeros((2, 2, 2))

                def fill(t=None):
                    buffer[:] = self.tensor(t)
                    return buffer

                extra["relaxation"] = fill
        if self.kind == "temperature":
            extra["thermal_expansion"] = np.array(s["expansion"], dtype=float)
            extra["thermal_conductivity"] = np.array(s["conductivity"], dtype=float)
        if self.kind.startswith("piezo"):
            extra["piezoelectricity"] = np.array(s["piezo"], dtype=float)
            extra["permittivity"] = np.array(s["permittivity"], dtype=float)
        if self.law2 is not None:
            extra["contact_law_2"] = self.law2
        return sut.evolution_problem(
            self.kind, self.descr, self.bnd, s["mu"], s["la"], s.get("th", 0.0), s.get("ze", 0.0), self.dt, self.law, self.inner, self.outer, **extra
        )

    def make_solver(self, method=None):
        ps = sut.C().ps
        cls = {
            "quasistatic": ps.TimeDependentSolver,
            "dynamic": ps.TimeDependentSolver,
            "relaxation": ps.QuasistaticRelaxation,
            "temperature": ps.TemperatureTimeDependentSolver,
            "piezo_quasistatic": ps.PiezoelectricTimeDependentSolver,
            "piezo_dynamic": ps.PiezoelectricTimeDependentSolver,
            "wave": ps.WaveSolver,
        }[self.kind]
        solver = cls(self.problem, method or self.s["method"])
        self.bind(solver.body.mesh)
        self.operators()
        return solver

    # -------------------------------------------------------------- initial data
    def initial(self):
        s = self.s
        zero = {"const": [0.0, 0.0]}
        u = scen.field(s.get("u0", zero), 2)
        v = scen.field(s.get("v0", zero), 2)
        kw = {"initial_displacement": u, "initial_velocity": v}
        if self.kind == "relaxation":
            kw = {"initial_displacement": u, "initial_absement": scen.field(s.get("b0", zero), 2)}
        if self.kind == "temperature":
            kw["initial_temperature"] = lambda x: scalar(s.get("t0"), x)
        if self.kind.startswith("piezo"):
            kw["initial_electric_potential"] = lambda x: scalar(s.get("p0"), x)
        return kw

    def start(self):
        """the state before the first step"""
        kw = self.initial()

        class S:
            pass

        o = S()
        n = self.n
        o.time = 0.0
        o.displacement = kw["initial_displacement"](self.X)
        o.velocity = kw["initial_velocity"](self.X) if "initial_velocity" in kw else np.zeros((n, 2))
        o.absement = kw["initial_absement"](self.X) if "initial_absement" in kw else np.zeros((n, 2))
        o.displaced_nodes = self.X.copy()
        if "initial_temperature" in kw:
            o.temperature = kw["initial_temperature"](self.X)
        if "initial_electric_potential" in kw:
            o.electric_potential = kw["initial_electric_potential"](self.X)
        return Snap(o)

    def run(self, solver, n, outputs=None, **kw):
        """states returned by the real solver"""
        args = dict(self.initial())
        args.update(kw)
        if self.s.get("opt") and self.kind in ("quasistatic", "dynamic", "relaxation", "wave"):
            args.setdefault("method", self.s["opt"])
        # options that must not matter: progress reports, and the kind of container that holds the schedule
        way = self.s["mesh"]["seed"] % 4
        outputs = list(outputs) if outputs is not None else list(range(1, n + 1))
        steps = (tuple(outputs), outputs, (k for k in outputs), range(1, n + 1) if outputs == list(range(1, n + 1)) else outputs)[way]
        if way in (1, 2):
            args.setdefault("verbose", True)
        if way == 3 and args.get("method", "BFGS") == "BFGS":
            args.setdefault("disp", True)
        with contextlib.redirect_stdout(io.StringIO()):
            return list(solver.solve(n_steps=n, output_step=steps, **args))

    # -------------------------------------------------------------- reference
    def operators(self):
        s, fem = self.s, self.fem
        rho = RHO.get(self.kind, 1.0)
        self.M1 = rho * fem.mass()
        self.M = np.kron(np.eye(2), self.M1)
        if self.kind == "wave":
            self.L = fem.laplace(float(s["prop"]) ** 2)
            return
        self.K = fem.elasticity(s["mu"], s["la"])
        if self.kind != "relaxation":
            self.V = fem.elasticity(s["th"], s["ze"])
        if self.kind == "temperature":
            self.TE = fem.thermal_expansion(s["expansion"])
            self.TC = fem.diffusion(s["conductivity"])
        if self.kind.startswith("piezo"):
            self.PE = fem.piezo(s["piezo"])
            self.PM = fem.diffusion(s["permittivity"])

    def load_time(self, k):
        """time at which the loads of step k (1-based) act"""
        return (k if self.kind in ("temperature", "piezo_quasistatic", "piezo_dynamic") else k - 1) * self.dt

    def step(self, prev, k, now=None):
        """(A, b, static displacement, old unknown) of step k given the previous state"""
        dt = self.dt
        u, v = ref.stack(prev.displacement), ref.stack(prev.velocity)
        t = self.load_time(k)
        if self.kind == "wave":
            n = self.n
            A = self.M1 / dt + dt * self.L
            b = self.force(t, 1) - self.L @ u[:n] + self.M1 @ v[:n] / dt
            return A, b, prev.displacement, v[:n]
        fo = self.force(t)
        if self.kind == "relaxation":
            R = self.fem.relaxation(self.tensor(t))
            return self.K + dt * R, fo - R @ ref.stack(prev.absement), prev.displacement, np.zeros(2 * self.n)
        A = self.V + dt * self.K
        b = fo - self.K @ u
        if self.kind in ("dynamic", "temperature", "piezo_dynamic"):
            A = A + self.M / dt
            b = b + self.M @ v / dt
        if self.kind == "temperature":
            b = b + self.TE.T @ now.temperature
        if self.kind.startswith("piezo"):
            b = b - self.PE.T @ now.electric_potential
        return A, b, prev.displacement, v

    def unknown(self, state):
        if self.kind == "wave":
            return np.array(state.velocity[:, 0], dtype=float)
        if self.kind == "relaxation":
            return ref.stack(state.displacement)
        return ref.stack(state.velocity)

    def make(self, prev, k, now=None):
        A, b, static, old = self.step(prev, k, now)
        if self.kind == "wave" and self.s.get("interior"):
            return lambda variant: self.interior_minimum(A, b, static)
        return lambda variant: self.minimum(A, b, static, self.dt, variant, old=old, dim=self.dim)

    def interior_minimum(self, A, b, static):
        contact = Interior(self.law, 0.5 * self.M1.sum(axis=1))
        return ref.Minimum(A, b, contact, static[:, 0], self.dt, self.fixed1, self.cval)

    # -------------------------------------------------------------- second (coupled) unknown
    def bind2(self):
        """Dirichlet data of the scalar unknown of a coupled problem"""
        if self.kind == "temperature":
            self.dn2, self.val2 = self.dn, self.cval
        else:
            self.dn2 = np.array([v for v in self.bnodes if self.is_piezo(self.X[v])], dtype=int)
            self.val2 = self.piezo_value(self.X[self.dn2])
        ends = {v for fc in self.contact_faces for v in fc}
        self.touching2 = bool(ends & set(self.dn2.tolist()))
        # ends of contact faces that are not contact nodes and carry no prescribed value
        self.loose2 = np.array(sorted(v for v in ends if v not in set(self.dn2.tolist()) and (v in set(self.dn.tolist()) or v in set(self.loose.tolist()))), dtype=int)

    def second(self, state):
        return state.temperature if self.kind == "temperature" else state.electric_potential

    def make2(self, prev, now):
        dt = self.dt
        if self.kind == "temperature":
            A = self.M1 / dt + self.TC
            b = self.M1 @ prev.temperature / dt - self.TE @ ref.stack(now.velocity)
        else:
            A = self.PM
            b = self.PE @ ref.stack(now.displacement)
        contact = None
        if self.law2 is not None and self.contact_faces:
            contact = ref.Contact(self.X, self.contact_faces, self.normals, self.law2, 1, deflection=False)
        static = prev.displacement

        def build(variant):
            c, fixed, vals = contact, self.dn2, self.val2
            if "old" in variant and c is not None:
                c = ref.Frozen(c, self.loose2, prev.velocity[self.loose2, 0])
            if "perturbed" not in variant:
                return ref.Minimum(A, b, c, static, dt, fixed, vals)
            A2, b2 = A.copy(), b - A[:, fixed] @ vals
            A2[:, fixed] = 0
            A2[fixed, :] = 0
            A2[fixed, fixed] = 1
            b2[fixed] = vals
            return ref.Minimum(A2, b2, c, static, dt, np.zeros(0, int), np.zeros(0))

        return build

    def contraction(self):
        """contraction factor of the staggered iteration between the two unknowns"""
        dt = self.dt
        A = self.V + dt * self.K
        if self.kind in ("temperature", "piezo_dynamic"):
            A = A + self.M / dt
        free = np.setdiff1d(np.arange(2 * self.n), self.fixed)
        free2 = np.setdiff1d(np.arange(self.n), self.dn2)
        if self.kind == "temperature":
            A2, B = self.M1 / dt + self.TC, self.TE
        else:
            A2, B = self.PM, dt**0.5 * self.PE
        B = B[np.ix_(free2, free)]
        G = np.linalg.solve(A[np.ix_(free, free)], B.T @ np.linalg.solve(A2[np.ix_(free2, free2)], B))
        return float(np.abs(np.linalg.eigvals(G)).max())

    def variants2(self):
        out = ()
        if self.touching2:
            out += (("perturbed", "dirichlet-node-in-contact"),)
        if self.s["method"] == "schur" and len(self.loose2):
            out += (("old", "second-law-old-value"),)
            if self.touching2:
                out += (("perturbed+old", "second-law-old-value"),)
        return out

    def contact_active(self, prev, now):
        """contact points whose potential responds (law evaluated at the observed motion)"""
        if self.law is None or not self.contact_faces:
            return 0, 0
        contact = ref.Contact(self.X, self.contact_faces, self.normals, self.law, self.dim)
        x = self.unknown(now).reshape(self.dim, -1).T
        on = total = 0
        for fc, nrm, w, b in contact.points():
            total += 1
            vm = b @ x[list(fc)]
            vn = float(vm[0]) if self.dim == 1 else float(vm @ nrm)
            sn, _ = contact._sd(fc, nrm, prev.displacement)
            on += abs(self.law.potential_normal_direction(vn, sn, self.dt)) > 0
        return on, total


class Interior:
    """obstacle response at every node of a membrane"""

    dim = 1

    def __init__(self, law, weights):
        self.law, self.w = law, weights

    def energy(self, var, static, dt):
        x = np.asarray(var).ravel()
        return float(sum(w * self.law.potential_normal_direction(a, s, dt) for w, a, s in zip(self.w, x, static)))

    def local(self, var, static, dt, h=1e-6):
        x = np.asarray(var).ravel()
        p = self.law.potential_normal_direction
        h2 = 1e-4
        g = np.array([w * (p(a + h, s, dt) - p(a - h, s, dt)) / (2 * h) for w, a, s in zip(self.w, x, static)])
        H = np.array([w * (p(a + h2, s, dt) - 2 * p(a, s, dt) + p(a - h2, s, dt)) / h2**2 for w, a, s in zip(self.w, x, static)])
        return g.reshape(-1, 1), np.diag(H)


def scalar(spec, x):
    """scalar initial field"""
    x = np.asarray(x, dtype=float)
    if not spec:
        return np.zeros(len(x))
    return float(spec.get("c", 0.0)) + x @ np.array(spec.get("g", [0.0, 0.0])) + float(spec.get("w", 0.0)) * np.sin(2 * x[:, 0] - x[:, 1])


# ------------------------------------------------------------------------------ generators
STEPS = (0.02, 1 / 30, 0.05, 0.1, 0.123456789, 0.25)  # round ones and others
LAWS = ("slope", "gap", "cubic", "adhesive", "friction", "evolving", "evolving")


def spec(rng, kind, method=None, laws=LAWS, nmax=None, values=0.4, touching=True):
    method = method or str(rng.choice(["schur", "schur", "global"]))
    nmax = nmax or (4 if method == "schur" else 3)
    parts = scen.PARTITIONS if touching else scen.PARTITIONS[:2] + scen.PARTITIONS[6:7]
    con, dirich = parts[int(rng.integers(0, len(parts)))]
    s = {
        "kind": kind,
        "mesh": scen.mesh2(rng, nmax),
        "contact": con,
        "dirichlet": dirich,
        "law": scen.law(rng, laws),
        "mu": coef(rng, 1, 12),
        "la": coef(rng, 1, 12),
        "th": coef(rng, 0.3, 6),
        "ze": coef(rng, 0.3, 6),
        "inner": scen.load(rng, 2, 1.0, ("one", "t", "sin", "step", "tail")),
        "outer": scen.load(rng, 2, 0.6, ("one", "t", "sin", "step", "tail")),
        "dt": float(rng.choice(STEPS)),
        "n": int(rng.integers(3, 7)),
        "method": method,
        "opt": "BFGS",
        "u0": {"const": np.round(rng.uniform(-0.05, 0.05, 2), 3).tolist(), "wave": f(rng.choice([0.0, 0.05]))},
        "v0": {"const": np.round(rng.uniform(-0.3, 0.3, 2), 3).tolist(), "wave": f(rng.choice([0.0, 0.3]))},
    }
    if rng.random() < values:
        s["c"] = [f(rng.uniform(-0.2, 0.2), 3), np.round(rng.uniform(-0.2, 0.2, 2), 3).tolist()]
    if kind == "relaxation":
        s["relax"] = relax(rng, s)
        s["b0"] = {"const": np.round(rng.uniform(-0.1, 0.1, 2), 3).tolist(), "wave": f(rng.choice([0.0, 0.1]))}
    if kind == "temperature" or kind.startswith("piezo"):
        s["th"], s["ze"] = coef(rng, 1, 6), coef(rng, 1, 6)
    if kind == "temperature":
        s["expansion"] = np.round(rng.uniform(-0.6, 0.6, (2, 2)) + 0.4 * np.eye(2), 3).tolist()
        s["conductivity"] = spd(rng).tolist()
        s["law2"] = {"law": "none"} if rng.random() < 0.4 else {"law": str(rng.choice(["adhesive", "exchange"])), "p": f(rng.uniform(0.1, 2)), "g": f(rng.uniform(-1, 1))}
        s["t0"] = {"c": f(rng.uniform(-1, 1)), "g": np.round(rng.uniform(-1, 1, 2), 3).tolist(), "w": f(rng.choice([0.0, 0.5]))}
    if kind.startswith("piezo"):
        s["piezo"] = np.round(rng.uniform(-0.35, 0.35, (2, 2, 2)), 3).tolist()
        s["permittivity"] = spd(rng).tolist()
        s["law2"] = {"law": "none"} if rng.random() < 0.4 else {"law": str(rng.choice(["adhesive", "exchange"])), "p": f(rng.uniform(0.1, 2)), "g": f(rng.uniform(-1, 1))}
        s["p0"] = {"c": 0.0, "g": [0.0, 0.0], "w": f(rng.choice([0.0, 0.5]))}
        s["piezo_dirichlet"] = str(rng.choice(["left", "top", "right", dirich.split("|")[0]]))
        s["pc"] = [f(rng.uniform(-0.5, 0.5), 3), np.round(rng.uniform(-0.5, 0.5, 2), 3).tolist()]
        if s["mesh"]["seed"] % 5 == 1:
            s["pc"] = None  # grounded electrodes: the boundary is given by its predicate alone
    if s["mesh"]["seed"] % 6 == 0:
        at_rest(s)
    return s


def at_rest(s):
    """nothing moves or is loaded at first"""
    s.pop("c", None)
    for k in ("u0", "v0", "b0"):
        if s.get(k):
            s[k] = {"const": [0.0, 0.0], "wave": 0.0}
    for k in ("inner", "outer"):
        s[k]["amp"], s[k]["after"] = "late", 1.5 * s["dt"]
    for k in ("t0", "p0"):
        if s.get(k):
            s[k] = {"c": 0.0, "g": [0.0, 0.0], "w": 0.0}
    s["rest"] = 1


def spd(rng):
    a = rng.uniform(-0.5, 0.5, (2, 2))
    return np.round(a @ a.T + np.diag(rng.uniform(0.5, 2.0, 2)), 4)


def trace_check(mon, s, name, tol):
    """run the spec and judge every step of the main unknown; returns (evo, solver, trace)"""
    ev = Evo(s)
    solver = ev.make_solver()
    if s["kind"] in COUPLED:
        ev.bind2()
        rho = ev.contraction()
        if rho > 0.3:
            raise Skip(f"staggered iteration contracts only by {rho:.2f}")
        tol = tol + rho**4
    states = ev.run(solver, s["n"])
    trace = [ev.start()] + [Snap(x) for x in states]
    mon.check("trace-length", len(states) == s["n"], f"{len(states)} states for {s['n']} steps")
    variants = scen.variants(ev, s["method"])
    for k in range(1, len(trace)):
        prev, now = trace[k - 1], trace[k]
        scen.judge(mon, name, ev.make(prev, k, now), ev.unknown(now), tol, variants, f"{s['method']} {(s.get('law') or {}).get('law')} step {k}")
        mon.seen(s["method"])
        mon.seen("stiff", int(s.get("unit", 1.0) > 1e4))
        if k > 1:
            mon.seen("later-step")
        on, _ = ev.contact_active(prev, now)
        mon.seen("contact-active", on)
        if np.abs(ev.unknown(now)).max() > 1e-8:
            mon.nontrivial(ev.unknown(now))
    mon.note("trace", {"steps": len(trace) - 1, "size": [float(np.abs(ev.unknown(x)).max()) for x in trace]})
    return ev, solver, trace


def rescale(s, a):
    """multiply every given value by a (a linear problem then scales exactly)"""
    for k in ("inner", "outer", "u0", "v0", "b0"):
        for part in ("const", "lin", "wave"):
            if s.get(k) and s[k].get(part) is not None:
                s[k][part] = (a * np.array(s[k][part], dtype=float)).tolist()
    for k in ("t0", "p0"):
        for part in ("c", "g", "w"):
            if s.get(k) and s[k].get(part) is not None:
                s[k][part] = (a * np.array(s[k][part], dtype=float)).tolist()
    for k in ("c", "pc"):
        if s.get(k):
            s[k] = [a * s[k][0], (a * np.array(s[k][1], dtype=float)).tolist()]


def units(s, rng):
    """the same run with forces measured in another unit (no inertia, so the motion stays)"""
    a = float(rng.choice([1.0, 1.0, 1.0, 1e-3, 1e3, 1e6, 1e9]))
    if s["method"] == "global":  # many unknowns: the minimiser's accuracy is absolute
        a = 1.0
    s["unit"] = a
    for k in ("mu", "la", "th", "ze"):
        s[k] *= a
    s["law"]["p"] *= a
    if "fr" in s["law"]:
        s["law"]["fr"] *= a
    if s.get("relax"):
        s["relax"]["base"] = (a * np.array(s["relax"]["base"])).tolist()
    for k in ("inner", "outer"):
        for part in ("const", "lin"):
            if s[k].get(part):
                s[k][part] = (a * np.array(s[k][part])).tolist()
    return s


def linear_spec(rng, kind):
    """a run without contact: nothing is minimised, so every step must hold to rounding"""
    if kind == "wave":
        s = wave_spec(rng, "boundary")
        s["mesh"] = scen.mesh2(rng, 7)
        s.update(contact="none", law={"law": "none"}, method="schur")
    else:
        s = spec(rng, kind, method="schur", nmax=6, values=0.5)
        s["contact"] = "none"
        s["law2"] = {"law": "none"}
        if s["dirichlet"] == "none":
            s["dirichlet"] = "left"
    s["n"] = int(rng.choice([8, 20, 45]))
    s["size"] = float(rng.choice([1e-6, 1e-3, 1.0, 1.0, 1e4]))
    rescale(s, s["size"])
    return s


def linear_check(mon, s, name, second=None):
    """run the spec and compare every step with a direct solve of the balance"""
    ev = Evo(s)
    solver = ev.make_solver()
    coupled = s["kind"] in COUPLED
    rho = 0.0
    if coupled:
        ev.bind2()
        rho = ev.contraction()
        if rho > 0.5:
            raise Skip(f"staggered iteration contracts only by {rho:.2f}")
    states = ev.run(solver, s["n"])
    trace = [ev.start()] + [Snap(x) for x in states]
    mon.check("trace-length", len(states) == s["n"], f"{len(states)} states for {s['n']} steps")

    def solve(A, b, fixed, vals):
        x = np.zeros(len(b))
        x[fixed] = vals
        free = np.setdiff1d(np.arange(len(b)), fixed)
        x[free] = np.linalg.solve(A[np.ix_(free, free)], b[free] - A[np.ix_(free, fixed)] @ vals)
        return x

    size = 0.0  # forces act through the whole history: judge relative to the largest motion so far
    for k in range(1, len(trace)):
        prev, now = trace[k - 1], trace[k]
        A, b, _, _ = ev.step(prev, k, now)
        fixed, vals = (ev.fixed1, ev.cval) if ev.dim == 1 else (ev.fixed, ev.fixed_values)
        got, want = ev.unknown(now), solve(A, b, fixed, vals)
        norm = lambda e: float(np.sqrt(max(e @ A @ e, 0.0)))  # noqa: E731
        parts = norm(want) + float(np.sqrt(np.abs(b @ np.linalg.lstsq(A, b, rcond=None)[0])))
        size = max(size, parts)
        tol = 1e-9 * size + 1e-13 * s["size"]
        if coupled:
            # the first sweeps, redone: what is left after five of them is bounded by the contraction
            # (from the previous values of the second unknown, or from none)
            change = 0.0
            for guess in (ev.second(prev), np.zeros(ev.n)):
                x1 = solve(*sweep(ev, prev, k, with_second(ev, now, guess)), fixed, vals)
                t1 = second_of(ev, prev, x1, solve)
                x2 = solve(*sweep(ev, prev, k, with_second(ev, now, t1)), fixed, vals)
                change = max(change, norm(x2 - x1))
            tol += 1.3 * rho**4 * change
            mon.seen("sweeps-matter", int(rho > 0.02 and change > 1e-3 * size))
            t = second_of(ev, prev, got, solve)
            scale2 = max(float(np.abs(t).max()), float(np.abs(ev.second(prev)).max()), float(np.abs(b).max()) * 1e-3)
            mon.close(second, ev.second(now), t, 1e-8, scale2 + 1e-300, f"step {k}")
        mon.le(name, norm(got - want) / (tol + 1e-300), 1.0, f"{s['kind']} step {k} of {s['n']}: error {norm(got - want):.2e} of {size:.2e};")
        mon.nontrivial(got)
    mon.seen("long-run", int(s["n"] > 30))
    return ev, trace


def with_second(ev, state, values):
    class S:
        pass

    o = S()
    o.__dict__.update(state.__dict__)
    setattr(o, "temperature" if ev.kind == "temperature" else "electric_potential", values)
    return o


def sweep(ev, prev, k, now):
    A, b, _, _ = ev.step(prev, k, now)
    return A, b


def second_of(ev, prev, velocity, solve):
    v = np.asarray(velocity)
    if ev.kind == "temperature":
        A = ev.M1 / ev.dt + ev.TC
        b = ev.M1 @ prev.temperature / ev.dt - ev.TE @ v
    else:
        A = ev.PM
        b = ev.PE @ (ref.stack(prev.displacement) + ev.dt * v)
    return solve(A, b, ev.dn2, ev.val2)


def relax(rng, s):
    """diagonally dominant tensors keep the step problem convex"""
    b = np.zeros((2, 2, 2))
    d = rng.uniform(0.5, 3.0, 4)
    b[0][0][0], b[0][1][1], b[1][0][0], b[1][1][1] = d
    o = rng.uniform(-0.2, 0.2)
    b[0][0][1] = b[1][1][0] = o
    b[0][1][0] = b[1][0][1] = o
    sparse = rng.random()
    if sparse < 0.5:  # many entries zero, or only some entries change in time
        b[0][0][1] = b[1][1][0] = b[0][1][0] = b[1][0][1] = 0.0
    out = {"base": np.round(b, 4).tolist(), "form": str(rng.choice(["lin", "exp", "switch"])), "rate": f(rng.uniform(0.5, 4), 3)}
    out["at"] = f(2.5 * s["dt"], 5)
    out["buffer"] = int(round(out["rate"] * 1000) % 4 == 0)
    if rng.random() < 0.4:
        out["only"] = [int(rng.integers(0, 2)) for _ in range(2)]
    return out


def partial(s, rng):
    """the same run with contact on half a side whose last face ends in an unclaimed node"""
    s = dict(s, contact="left:0:0.5", dirichlet="right", method="schur")
    s["mesh"] = dict(scen.mesh2(rng, 3), shape="square", n=3, m=3, diag="right", jitter=0.0, lx=1.0, ly=1.0, affine=None)
    if s.get("law", {}).get("law") in ("slope", "gap", "cubic"):
        s["law"] = {"law": "adhesive", "p": 20.0, "g": 0.05}
    if s.get("law2"):
        s["law2"] = {"law": "adhesive", "p": 2.0, "g": 1.0}
        s["piezo_dirichlet"] = "top" if s["kind"].startswith("piezo") else None
    return s


def wave_spec(rng, law_kind):
    """law_kind: 'free' (no law), 'boundary', 'interior'"""
    dirich = str(rng.choice(["left|right|top|bottom", "left|top", "left", "top|bottom"]))
    s = {
        "kind": "wave",
        "fd": 1,
        "mesh": scen.mesh2(rng, 4),
        "contact": "none",
        "dirichlet": dirich,
        "prop": f(rng.uniform(0.3, 3.0), 3),
        "inner": scen.load(rng, 1, 4.0, ("one", "t", "sin", "step", "tail")),
        "outer": scen.load(rng, 1, 2.0, ("one", "t", "sin", "step", "tail")),
        "dt": float(rng.choice(STEPS if law_kind in ("free", "boundary") else STEPS[:-1])),
        "n": int(rng.integers(3, 8)),
        "method": "schur",
        "opt": "BFGS",
        "u0": {"const": [f(rng.uniform(-0.1, 0.1)), 0.0]},
        "v0": {"const": [f(rng.uniform(-1, 1)), 0.0]},
    }
    if law_kind == "boundary":
        free = [x for x in ("left", "right", "top", "bottom") if x not in dirich.split("|")]
        if not free:
            dirich = s["dirichlet"] = "left"
            free = ["right", "top", "bottom"]
        con = str(rng.choice(free))
        if rng.random() < 0.3 and len(free) > 1:
            con = "|".join(free[:2])
        s["contact"] = con
        s["law"] = scen.law(rng, ("gap", "cubic", "adhesive", "evolving", "evolving", "none"))
        s["method"] = str(rng.choice(["schur", "schur", "global"]))
    if law_kind == "dnc":
        s["dirichlet"] = dirich = "left"
        s["contact"] = str(rng.choice(["right", "top", "bottom", "right|top"]))
        s["law"] = {"law": "dnc", "level": f(rng.uniform(-0.1, 0.2), 3), "p": f(rng.uniform(1, 20), 2), "beta": f(rng.uniform(0.0, 2.0), 2)}
        s["method"] = str(rng.choice(["schur", "global"]))
        if s["method"] == "global":
            s["contact"] = "right"  # not touching the fixed side
    if law_kind == "interior":
        s["law"] = {"law": "interior", "p": f(rng.uniform(1, 60), 2), "g": f(rng.uniform(-0.05, 0.1), 3), "beta": f(rng.uniform(0, 2), 2)}
        s["interior"] = True
        s["method"] = "global"
    if law_kind == "free":
        s["method"] = "direct"
    if s["method"] == "global":
        s["mesh"] = scen.mesh2(rng, 3)
    for k in ("inner", "outer"):
        s[k].pop("lin", None)
        if rng.random() < 0.5:
            s[k]["lin"] = np.round(rng.uniform(-2, 2, size=(1, 2)), 3).tolist()
    if rng.random() < 0.4:
        s["c"] = [f(rng.uniform(-0.3, 0.3), 3), np.round(rng.uniform(-0.3, 0.3, 2), 3).tolist()]
    return s
