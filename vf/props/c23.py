"""Energy never appears from nowhere: recorded traces against the discrete energy balance."""
import numpy as np

from vf import evo, gen, ref, scen, sut
from vf.core import Skip
from vf.gen import f, rng_of

RULE = (
    "long random runs of every evolution type with motionless supports and passive contact laws, unloaded or loaded; the energy of every observed state "
    "(kinetic, elastic, stored in contact, thermal or electric) is computed by an independent assembly and may grow from one step to the next at most "
    "by the work of the loads; bodies started at rest or in equilibrium have to stay there; non-trivial when energy is actually dissipated or work done"
)
REQUIRED = [f"energy-{k}" for k in evo.KINDS] + ["unloaded", "loaded", "dissipated", "rest", "equilibrium", "contact-active", "obstacle-stored", "interior-stored", "long-run", "work-positive", "work-negative", "dissipation"]
ASSUMPTIONS = [
    "contact laws are passive: responses against the velocity, or obstacles with a convex stored energy",
    "supports do not move and carry no potential or temperature; relaxation tensors are constant, symmetric and positive here",
]
TOL = {"default": 2e-4}
PASSIVE = ("slope", "gap", "cubic", "adhesive", "friction", "evolving", "evolving")


def passive(rng, s):
    law = scen.law(rng, PASSIVE)
    if law["law"] in ("gap", "cubic"):
        law["g"] = abs(law["g"])
    if law["law"] in ("adhesive",):
        law["g"] = 0.0
    if law["law"] == "evolving":
        law["fr"] = 0.0
        if s["kind"] == "relaxation":  # the response against an earlier displacement is not passive
            law = {"law": "adhesive", "p": law["p"], "g": 0.0}
    return law


def spec(rng, kind, loaded):
    if kind == "wave":
        what = str(rng.choice(["boundary", "boundary", "interior"]))
        s = evo.wave_spec(rng, what)
        s.pop("c", None)
        if what == "boundary":
            s["law"] = passive(rng, s)
            if s["law"]["law"] in ("slope", "friction"):
                s["law"] = {"law": "adhesive", "p": s["law"]["p"], "g": 0.0}
        if s["method"] == "global" and what == "boundary":
            s["dirichlet"], s["contact"] = "left", "right"
        s["n"] = int(rng.integers(8, 18)) if s["method"] == "schur" else 6
    else:
        s = evo.spec(rng, kind, laws=("slope",), nmax=3, values=0.0)
        s["law"] = passive(rng, s)
        if s["contact"] == "left:0:0.5":
            s["contact"] = "left"
        if s["method"] == "global":
            s["contact"], s["dirichlet"] = scen.PARTITIONS[int(rng.integers(0, 2))]
            s["mesh"] = scen.mesh2(rng, 2)
        s["n"] = int(rng.integers(8, 20)) if s["method"] == "schur" else 5
        if kind in evo.COUPLED:
            s["n"] = min(s["n"], 8)
    s.pop("c", None)
    if s.get("pc"):
        s["pc"] = [0.0, [0.0, 0.0]]
        s["p0"] = {"c": 0.0, "g": [0.0, 0.0], "w": 0.0}
    if s.get("law2"):
        s["law2"] = {"law": "none"}
    if kind == "relaxation":
        s["relax"]["rate"] = 0.0
        s["relax"]["form"] = "lin"
        s["relax"].pop("only", None)
        b = np.array(s["relax"]["base"])
        b[0][0][1] = b[1][1][0] = b[0][1][0] = b[1][0][1] = 0.0
        s["relax"]["base"] = b.tolist()
        s["b0"] = {"const": s["b0"]["const"], "wave": 0.1}
    s["v0"] = {"const": s["v0"]["const"], "wave": f(rng.choice([0.0, 1.0]))}
    s["u0"] = {"const": s["u0"]["const"], "wave": 0.05}
    if not loaded:
        for k in ("inner", "outer"):
            n = len(s[k]["const"])
            s[k] = {"const": [0.0] * n, "amp": "one"}
    s["loaded"] = int(loaded)
    return s


def cases(tier, seed):
    n, nr, nj = (12, 6, 1) if tier == "quick" else (220, 100, 8)
    out = []
    for kind in evo.KINDS:
        for i in range(n if kind not in evo.COUPLED else n // 2):
            rng = rng_of("C23", seed, kind, i)
            s = spec(rng, kind, i % 2)
            out.append({"kind": kind, "mode": "energy", "s": s, "w": s["n"] * (3 if kind in evo.COUPLED else 1) * (4 if s["method"] == "global" else 0.6)})
        for i in range(nr if kind not in evo.COUPLED else nr // 2):
            rng = rng_of("C23", seed, kind, "rest", i)
            s = spec(rng, kind, bool(i % 2) and kind in ("quasistatic", "dynamic", "wave"))
            s["n"] = 4
            zero = {"const": [0.0, 0.0]}
            s["u0"], s["v0"], s["b0"] = zero, zero, zero
            s.pop("t0", None)
            if s.get("law"):
                s["law"] = dict(s["law"])
                if "g" in s["law"]:
                    s["law"]["g"] = abs(s["law"]["g"])
            for k in ("inner", "outer"):
                s[k]["amp"] = "one"
            if s["loaded"] and s["law"]["law"] in ("evolving", "interior"):
                s["law"] = {"law": "gap", "p": 9.0, "g": 0.02} if s["law"]["law"] == "evolving" else dict(s["law"], g=1e6)
            out.append({"kind": kind, "mode": "rest", "s": s, "w": 4})
    for i in range(nj):
        s = spec(rng_of("C23", seed, "jit", i), "dynamic", True)
        s["method"], s["n"] = "schur", 6
        out.append({"kind": "dynamic", "mode": "energy", "s": s, "w": 20, "jit": 1})
    return out


def run(case, mon):
    {"energy": run_energy, "rest": run_rest}[case["mode"]](case, mon)


class Energy:
    """energy of an observed state, part by part"""

    def __init__(self, ev):
        self.ev = ev
        k = ev.kind
        law = ev.law
        self.contact = None
        if law is not None and ev.s["law"]["law"] == "evolving" and ev.contact_faces:
            self.contact = ref.Contact(ev.X, ev.contact_faces, ev.normals, law, ev.dim)
        if ev.s.get("interior"):
            self.contact = evo.Interior(law, 0.5 * ev.M1.sum(axis=1))
        self.inertial = k in ("dynamic", "temperature", "piezo_dynamic", "wave")

    def parts(self, st):
        ev = self.ev
        out = {}
        if ev.kind == "wave":
            u, v = st.displacement[:, 0], st.velocity[:, 0]
            out["kinetic"], out["elastic"] = 0.5 * v @ ev.M1 @ v, 0.5 * u @ ev.L @ u
        else:
            u, v = ref.stack(st.displacement), ref.stack(st.velocity)
            if ev.kind == "relaxation":
                b = ref.stack(st.absement)
                R = ev.fem.relaxation(ev.tensor(0.0))
                return {"memory": 0.5 * b @ (0.5 * (R + R.T)) @ b}
            out["kinetic"] = 0.5 * v @ ev.M @ v if self.inertial else 0.0
            out["elastic"] = 0.5 * u @ ev.K @ u
        if self.contact is not None:
            zero = np.zeros(ev.n) if ev.s.get("interior") else np.zeros((ev.n, ev.dim))
            static = st.displacement[:, 0] if ev.s.get("interior") else st.displacement
            out["contact"] = ev.dt * self.contact.energy(zero, static, ev.dt)
        if ev.kind == "temperature":
            out["thermal"] = 0.5 * st.temperature @ ev.M1 @ st.temperature
        if ev.kind.startswith("piezo"):
            out["electric"] = 0.5 * st.electric_potential @ ev.PM @ st.electric_potential
        return out

    def work(self, st, k):
        ev = self.ev
        fo = ev.force(ev.load_time(k), 1 if ev.kind == "wave" else None)
        if ev.kind == "wave":
            return ev.dt * float(fo @ st.velocity[:, 0])
        return ev.dt * float(fo @ ref.stack(st.displacement if ev.kind == "relaxation" else st.velocity))

    def viscous(self, st):
        """what the material must dissipate at least during the step"""
        ev = self.ev
        if ev.kind == "wave":
            return 0.0
        if ev.kind == "relaxation":
            u = ref.stack(st.displacement)
            return ev.dt * float(u @ ev.K @ u)
        v = ref.stack(st.velocity)
        return ev.dt * float(v @ ev.V @ v)


def ready(case):
    s = case["s"]
    ev = evo.Evo(s)
    solver = ev.make_solver()
    rho = 0.0
    if s["kind"] in evo.COUPLED:
        ev.bind2()
        if len(ev.dn2) in (0, ev.n):
            raise Skip("no potential prescribed, or everywhere")
        rho = ev.contraction()
        if rho > 0.1:
            raise Skip("staggered iteration contracts slowly")
    return ev, solver, rho


def run_energy(case, mon):
    s = case["s"]
    ev, solver, rho = ready(case)
    states = ev.run(solver, s["n"])
    trace = [ev.start()] + [evo.Snap(x) for x in states]
    en = Energy(ev)
    parts = [en.parts(x) for x in trace]
    total = [float(sum(p.values())) for p in parts]
    tol = TOL["default"] + (rho**4)
    size = max(total) + 1e-9
    dissipated = 0.0
    for k in range(1, len(trace)):
        if k == 1 and s["kind"].startswith("piezo"):
            continue  # the first potential follows from the given displacement only after the first step
        work = en.work(trace[k], k)
        grew = total[k] - total[k - 1]
        scale = max(total[k], total[k - 1], abs(work)) + 1e-3 * size + 1e-9
        text = f"{s['method']} {(s.get('law') or {}).get('law')} step {k}: energy {total[k-1]:.6e} -> {total[k]:.6e}, work {work:.3e} ({', '.join(f'{q} {v:.2e}' for q, v in parts[k].items())})"
        mon.le(f"energy-{s['kind']}", grew - work, tol * scale, text)
        # the material dissipates on top of that
        loss = en.viscous(trace[k])
        mon.le("dissipation", grew - work + loss, tol * (scale + loss), text + f", viscous {loss:.3e}")
        mon.seen("loaded" if s["loaded"] else "unloaded")
        dissipated += work - grew
        if s["loaded"]:
            mon.seen("work-positive" if work > 0 else "work-negative")
        if parts[k].get("contact", 0.0) > 1e-6 * size:
            mon.seen("interior-stored" if s.get("interior") else "obstacle-stored")
        on, _ = ev.contact_active(trace[k - 1], trace[k])
        mon.seen("contact-active", on)
    if len(trace) > 8:
        mon.seen("long-run")
    if not s["loaded"]:
        mon.le("never-above-start", max(total[2:]) - total[1], tol * len(trace) * size, "energy above its first value")
    if dissipated > 1e-3 * size:
        mon.seen("dissipated")
        mon.nontrivial(np.array(total))
    mon.note("energy", total)


def run_rest(case, mon):
    s = case["s"]
    ev, solver, _ = ready(case)
    kw = {}
    size = 1.0
    if s["loaded"]:
        fo = ev.force(0.0, 1 if s["kind"] == "wave" else None)
        A = ev.L if s["kind"] == "wave" else ev.K
        fixed = ev.dn if s["kind"] == "wave" else ev.fixed
        free = np.setdiff1d(np.arange(len(A)), fixed)
        u = np.zeros(len(A))
        u[free] = np.linalg.solve(A[np.ix_(free, free)], fo[free])
        U = np.zeros((ev.n, 2))
        U[:, : len(u) // ev.n] = u.reshape(-1, ev.n).T
        size = np.abs(u).max() + 1e-12

        def at(x):
            from scipy.spatial import cKDTree

            d, i = cKDTree(ev.X).query(np.asarray(x))
            assert d.max() < 1e-9
            return U[i]

        kw["initial_displacement"] = at
    states = ev.run(solver, s["n"], **kw)
    name = "equilibrium" if s["loaded"] else "rest"
    want = U if s["loaded"] else np.zeros((ev.n, 2))
    for k, st in enumerate(states):
        mon.close(name, st.displacement, want, 1e-4, size, f"{s['kind']} {s['method']} {(s.get('law') or {}).get('law')} displacement of step {k + 1}")
        mon.close(name, st.velocity, np.zeros((ev.n, 2)), 1e-3, size / s["dt"], f"{s['kind']} {s['method']} velocity of step {k + 1}")
        for q in ("temperature", "electric_potential"):
            v = getattr(st, q, None)
            if v is not None:
                mon.close(name, v, np.zeros(ev.n), 1e-6, 1.0, f"{s['kind']} {q} of step {k + 1}")
    if s["loaded"]:
        mon.nontrivial(want)
    else:
        mon.nontrivial("rest", s["mesh"]["seed"])
