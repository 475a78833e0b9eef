"""Kinematics, clock, output schedules and immutability of returned states."""
import contextlib
import io

import numpy as np

from vf import evo, scen, sut
from vf.core import Skip
from vf.gen import f, rng_of

RULE = (
    "random runs of every problem type observed at every step, then repeated with random output schedules (none, sparse, with repeated "
    "and zero steps); returned states re-read after later use of the solver and probed for shared storage; random sequences of state "
    "updates against a model; non-trivial when the body moves"
)
REQUIRED = (
    ["kinematics", "clock", "moved-nodes", "schedule-length", "schedule-state", "default-schedule", "frozen", "no-aliasing", "stress", "model", "static", "repeated-output", "zero-output", "absement"]
    + [f"kind-{k}" for k in evo.KINDS]
)
ASSUMPTIONS = ["schedules are non-decreasing, as the solver documents"]


def spec(rng, kind):
    if kind == "wave":
        s = evo.wave_spec(rng, str(rng.choice(["boundary", "boundary", "interior", "free"])))
    else:
        s = evo.spec(rng, kind, laws=("slope", "gap", "adhesive", "evolving"), nmax=2)
        if s["method"] == "global":
            s["mesh"] = scen.mesh2(rng, 2)
    s["n"] = int(rng.integers(2, 6)) if s["method"] != "global" else int(rng.integers(2, 4))
    return s


def schedules(rng, n):
    out = [None, [n]]
    some = sorted(int(v) for v in rng.integers(0, n + 1, size=int(rng.integers(1, 4))))
    out.append(some)
    rep = sorted([0] + [int(rng.integers(1, n + 1))] * 2 + [n])
    out.append(rep)
    return [out[i] for i in rng.permutation(len(out))[:2]]


def cases(tier, seed):
    n, nm, ns, nj = (4, 60, 10, 1) if tier == "quick" else (80, 1500, 120, 8)
    out = []
    for kind in evo.KINDS:
        for i in range(n + (nj if kind in ("dynamic", "wave") else 0)):
            rng = rng_of("C12", seed, kind, i)
            s = spec(rng, kind)
            w = s["n"] * (3 if kind in evo.COUPLED else 1) * (3 if s["method"] == "global" else 1)
            out.append({"kind": kind, "mode": "run", "s": s, "plans": schedules(rng, s["n"]), "w": 2 * w, "jit": int(i >= n)})
    for i in range(nm):
        rng = rng_of("C12", seed, "model", i)
        out.append({"kind": "model", "mode": "model", "mesh": scen.mesh2(rng, 2), "seed": int(rng.integers(0, 2**31)), "ops": int(rng.integers(4, 16)), "state": ("State", "TemperatureState", "PiezoelectricState")[i % 3], "w": 0.3})
    for i in range(ns):
        rng = rng_of("C12", seed, "static", i)
        con, dirich = scen.PARTITIONS[i % 2]
        s = {"mesh": scen.mesh2(rng, 3), "contact": con, "dirichlet": dirich, "law": scen.law(rng, ("slope", "gap")), "mu": 3.0, "la": 2.0, "inner": scen.load(rng, 2), "outer": scen.load(rng, 2), "method": str(rng.choice(["schur", "direct"]))}
        out.append({"kind": "static", "mode": "static", "s": s, "w": 1})
    return out


def run(case, mon):
    {"run": run_evolution, "model": run_model, "static": run_static}[case["mode"]](case, mon)


def rules(mon, ev, s, trace, steps):
    """trace[i] was observed after steps[i] steps; the kinematics hold between consecutive steps"""
    dt = s["dt"]
    X = ev.X
    for i, (st, k) in enumerate(zip(trace, steps)):
        mon.close("clock", st.time, k * dt, 1e-9, max(k, 1) * dt, f"state after {k} steps")
        if k:
            mon.close("moved-nodes", st.displaced_nodes, X + st.displacement, 1e-12, np.abs(X).max() + np.abs(st.displacement).max(), f"step {k}")
        if not i:
            continue
        prev = trace[i - 1]
        if k - steps[i - 1] == 1:
            if s["kind"] == "relaxation":
                mon.close("absement", st.absement, prev.absement + dt * st.displacement, 1e-10, np.abs(st.absement).max() + dt * np.abs(st.displacement).max() + 1e-30, f"step {k}")
            else:
                mon.close("kinematics", st.displacement, prev.displacement + dt * st.velocity, 1e-10, np.abs(st.displacement).max() + dt * np.abs(st.velocity).max() + 1e-30, f"step {k}")
                mon.close("kinematics", st.absement, prev.absement, 1e-12, 1.0, f"step {k}: absement of a problem without memory")


def run_evolution(case, mon):
    s = case["s"]
    ev = evo.Evo(s)
    solver = ev.make_solver()
    n = s["n"]
    states = ev.run(solver, n)
    full = [ev.start()] + [evo.Snap(x) for x in states]
    mon.check("schedule-length", len(states) == n, f"{len(states)} states for {n} requested")
    rules(mon, ev, s, full, list(range(n + 1)))
    mon.seen(f"kind-{s['kind']}")
    if np.abs(full[-1].displacement).max() > 1e-9:
        mon.nontrivial(full[-1].displacement)
    # the states of one run share no storage
    for i, a in enumerate(states):
        for b in states[i + 1 :]:
            for name in evo.Snap.NAMES:
                x, y = getattr(a, name, None), getattr(b, name, None)
                if x is not None and y is not None:
                    mon.check("no-aliasing", not np.shares_memory(x, y), f"{name} of two returned states is the same storage")
        mon.check("no-aliasing", not np.shares_memory(a.displaced_nodes, solver.body.mesh.nodes), "moved nodes are the mesh nodes")
    kept = states
    for plan in case["plans"]:
        ev2 = evo.Evo(s)
        other = ev2.make_solver()
        if plan is None:
            kw = {}
            with contextlib.redirect_stdout(io.StringIO()):
                args = dict(ev2.initial())
                if s.get("opt") and s["kind"] not in evo.COUPLED:
                    args["method"] = s["opt"]
                got = list(other.solve(n_steps=n, **args))
            want = [n]
            mon.seen("default-schedule")
        else:
            got = ev2.run(other, n, plan)
            want = plan
            if len(set(plan)) < len(plan):
                mon.seen("repeated-output")
            if plan and plan[0] == 0:
                mon.seen("zero-output")
        if not mon.check("schedule-length", len(got) == len(want), f"schedule {plan}: {len(got)} states"):
            continue
        snaps = [evo.Snap(x) for x in got]
        for st, k in zip(snaps, want):
            mon.check("schedule-state", abs(st.time - k * s["dt"]) <= 1e-9 * max(k, 1), f"schedule {plan}: time {st.time} for step {k}")
            for name in ("displacement", "velocity", "absement", "temperature", "electric_potential"):
                a, b = getattr(st, name), getattr(full[k], name)
                if a is not None:
                    mon.close("schedule-state", a, b, 1e-7, np.abs(b).max() + 1e-12, f"schedule {plan} step {k} {name}")
        # using the solver again leaves the earlier states alone
        before = [evo.Snap(x) for x in got]
        ev2.run(other, 2)
        for a, b in zip(before, got):
            mon.check("frozen", a.diff(b) == 0.0, f"schedule {plan}: a returned state changed when the solver ran again")
    for a, b in zip(full[1:], kept):
        mon.check("frozen", a.diff(b) == 0.0, "a returned state changed")
    # writing into one returned state leaves the others alone
    kept[0].displacement += 1.0
    kept[0].velocity += 1.0
    kept[0].displaced_nodes += 1.0
    kept[0].absement += 1.0
    for a, b in zip(full[2:], kept[1:]):
        mon.check("no-aliasing", a.diff(b) == 0.0, "a returned state changed when another one was written to")


class Body:
    pass


def law(**kw):
    """a constitutive law that depends on everything it is given"""
    e = kw["elements"]
    v = kw["velocity"][e].mean(axis=1)
    u = kw["displacement"][e].mean(axis=1)
    b = kw["absement"][e].mean(axis=1)
    t = float(kw["time"])
    a = u + 2.0 * v - 3.0 * b + t
    return np.einsum("ei,ej->eij", a, a + 1.0) + kw["nodes"][e].sum() * 1e-3


def run_model(case, mon):
    """random sequences of state updates against a plain model of the kinematics"""
    c = sut.C()
    rng = np.random.default_rng(case["seed"])
    d, _, _ = sut.descr(case["mesh"])
    mesh = c.Mesh(mesh_descr=d, boundaries_description=c.BoundariesDescription(contact=lambda x: False, dirichlet=lambda x: False))
    body = Body()
    body.mesh = mesh
    st = getattr(c.st, case["state"])(body)
    n = len(mesh.nodes)
    X = np.array(mesh.nodes)
    m = {"u": np.zeros((n, 2)), "v": np.zeros((n, 2)), "b": np.zeros((n, 2)), "x": X.copy(), "t": 0.0, "s": None}
    st.constitutive_law = law
    copies = []
    for k in range(case["ops"]):
        op = int(rng.integers(0, 6))
        t = m["t"] + f(rng.choice([0.0, 0.01, 0.3, 1.0]))
        vec = rng.uniform(-1, 1, 2 * n)
        if op in (0, 1):
            st.set_displacement(vec.copy(), t, update_absement=bool(op))
            m["u"] = vec.reshape(2, -1).T
            m["x"] = X + m["u"]
            if op:
                m["b"] = m["b"] + (t - m["t"]) * m["u"]
            m["t"] = t
        elif op in (2, 3):
            st.set_velocity(vec.copy(), t, update_displacement=bool(op - 2))
            m["v"] = vec.reshape(2, -1).T
            if op == 3:
                m["u"] = m["u"] + (t - m["t"]) * m["v"]
                m["x"] = X + m["u"]
            m["t"] = t
        elif op == 4:
            copies.append((st.copy(), {q: (np.array(w) if isinstance(w, np.ndarray) else w) for q, w in m.items()}))
        else:
            s = vec[:n].copy()
            if case["state"] == "TemperatureState":
                st.set_temperature(s.copy())
                m["s"] = s
            elif case["state"] == "PiezoelectricState":
                st.set_electric_potential(s.copy())
                m["s"] = s
        same(mon, st, m, case["state"], f"after operation {k} ({op})")
        want = law(velocity=m["v"], displacement=m["u"], absement=m["b"], elements=mesh.elements, nodes=mesh.nodes, time=m["t"])
        mon.close("stress", st.stress, want, 1e-9, np.abs(want).max(), f"after operation {k} ({op})")
        mon.close("stress", st.stress_x, want[:, 0, 0], 1e-9, np.abs(want).max(), "stress_x")
        mon.close("stress", st.stress_y, want[:, 1, 1], 1e-9, np.abs(want).max(), "stress_y")
        mon.close("stress", st.stress_norm, np.sqrt((want**2).sum(axis=(1, 2))), 1e-9, np.abs(want).max(), "stress_norm")
    for cp, mm in copies:
        same(mon, cp, mm, case["state"], "copy re-read at the end")
    mon.nontrivial(m["u"], m["b"], m["v"])


def same(mon, st, m, cls, detail):
    mon.close("model", st.displacement, m["u"], 1e-10, np.abs(m["u"]).max() + 1e-12, f"displacement {detail}")
    mon.close("model", st.velocity, m["v"], 1e-10, np.abs(m["v"]).max() + 1e-12, f"velocity {detail}")
    mon.close("model", st.absement, m["b"], 1e-10, np.abs(m["b"]).max() + 1e-12, f"absement {detail}")
    mon.close("model", st.displaced_nodes, m["x"], 1e-10, np.abs(m["x"]).max() + 1e-12, f"moved nodes {detail}")
    mon.close("model", st["displacement"], m["u"], 1e-10, np.abs(m["u"]).max() + 1e-12, f"state['displacement'] {detail}")
    mon.close("model", st["velocity"], m["v"], 1e-10, np.abs(m["v"]).max() + 1e-12, f"state['velocity'] {detail}")
    mon.check("model", st.time == m["t"], f"time {detail}")
    if m["s"] is not None:
        got = st.temperature if cls == "TemperatureState" else st.electric_potential
        mon.close("model", got, m["s"], 1e-12, 1.0, f"scalar field {detail}")


def run_static(case, mon):
    s = case["s"]
    sc = scen.Scenario(s)
    solver = sut.C().ps.StaticSolver(sut.static_problem(sc.descr, sc.bnd, s["mu"], s["la"], sc.law, sc.inner, sc.outer), s["method"])
    sc.bind(solver.body.mesh)
    with contextlib.redirect_stdout(io.StringIO()):
        a = solver.solve(initial_displacement=lambda x: np.zeros_like(x))
        first = evo.Snap(a)
        b = solver.solve(initial_displacement=lambda x: 0.1 + np.zeros_like(x))
    mon.seen("static")
    mon.check("frozen", first.diff(a) == 0.0, "the first static solution changed when the solver ran again")
    for name in ("displacement", "velocity", "absement", "displaced_nodes"):
        mon.check("no-aliasing", not np.shares_memory(getattr(a, name), getattr(b, name)), f"{name} of two solutions is the same storage")
    for st in (a, b):
        mon.close("moved-nodes", st.displaced_nodes, sc.X + st.displacement, 1e-12, 1 + np.abs(sc.X).max(), "static")
        mon.check("clock", float(st.time) == 0.0, f"static time {st.time}")
    mon.nontrivial(a.displacement)
