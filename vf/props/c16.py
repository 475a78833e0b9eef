"""Every observed step of a membrane run satisfies the discrete wave equation with its obstacle."""
import numpy as np

from vf import evo, ref, scen
from vf.gen import rng_of

RULE = (
    "random membranes (mesh, partition, propagation, load history, boundary values, initial state, time step, obstacle on the boundary or "
    "inside); every step is compared with an independent minimiser started from the previous observed state; non-trivial when it moves"
)
REQUIRED = ["step-boundary", "step-interior", "step-free", "step-dnc", "contact-active", "interior-active", "second-component", "schur", "global", "flat-boundary", "flat-interior", "flat-dnc", "flat-free", "linear-step", "long-run"]
ASSUMPTIONS = ["obstacle laws are convex in the velocity, except damped normal compliance, whose potential jumps at the obstacle: there stationarity is checked in steps in which no contact point crosses the jump"]
TOL = 5e-4
STALE = (("stale", "direct-dynamic-stale"),)


def cases(tier, seed):
    per, nj = ({"boundary": 70, "interior": 24, "free": 14, "dnc": 24}, 2) if tier == "quick" else ({"boundary": 1200, "interior": 250, "free": 120, "dnc": 400}, 12)
    out = []
    for kind, n in per.items():
        for i in range(n + (nj if kind in ("boundary", "interior") else 0)):
            rng = rng_of("C16", seed, kind, i)
            s = evo.wave_spec(rng, kind)
            if i % 3 == 1:  # a flat membrane, moving or not
                s["u0"] = {"const": [0.0, 0.0]}
                if i % 2:
                    s["v0"] = {"const": [0.0, 0.0]}
            out.append({"kind": f"{kind}-{s['method']}", "mode": kind, "s": s, "w": s["n"] * {"schur": 1, "direct": 1, "global": 4}[s["method"]], "jit": int(i >= n)})
    for i in range(3 if tier == "quick" else 30):
        rng = rng_of("C16", seed, "partial", i)
        s = evo.partial(evo.wave_spec(rng, "boundary"), rng)
        out.append({"kind": "partial-side", "mode": "boundary", "s": s, "w": s["n"]})
    for i in range(24 if tier == "quick" else 300):
        s = evo.linear_spec(rng_of("C16", seed, "linear", i), "wave")
        out.append({"kind": "linear", "mode": "linear", "s": s, "w": 6})
    return out


def run(case, mon):
    if case["kind"] == "linear":
        ev, trace = evo.linear_check(mon, case["s"], "linear-step")
        return second_component(mon, trace)
    s, mode = case["s"], case["mode"]
    if mode in ("boundary", "interior"):
        ev, solver, trace = evo.trace_check(mon, s, f"step-{mode}", TOL)
        if mode == "interior":
            g = s["law"]["g"]
            for k in range(1, len(trace)):
                mon.seen("interior-active", int((trace[k].displacement[:, 0] > g).sum()))
    else:
        ev = evo.Evo(s)
        solver = ev.make_solver()
        trace = [ev.start()] + [evo.Snap(x) for x in ev.run(solver, s["n"])]
        for k in range(1, len(trace)):
            prev, now = trace[k - 1], trace[k]
            A, b, static, old = ev.step(prev, k)
            x = ev.unknown(now)
            if mode == "free":

                def make(variant):
                    rhs = ev.force(0.0, 1) if variant == "stale" else b
                    return ref.Minimum(A, rhs, None, None, s["dt"], ev.fixed1, ev.cval)

                scen.judge(mon, "step-free", make, x, TOL, STALE, f"direct step {k}")
            else:
                stationary(mon, ev, A, b, static, x, old, k)
            mon.nontrivial(x)
    if not trace[0].displacement.any():
        mon.seen(f"flat-{mode}")
    second_component(mon, trace)


def second_component(mon, trace):
    for k, st in enumerate(trace[1:], 1):
        scale = 1e-300 + np.abs(st.velocity[:, 0]).max() + np.abs(st.displacement[:, 0]).max()
        mon.le("second-component", float(np.abs(st.velocity[:, 1]).max() + np.abs(st.displacement[:, 1]).max()) / scale, 1e-4, f"step {k}: in-plane component moved")


def stationary(mon, ev, A, b, static, x, old, k):
    dt, level = ev.dt, float(ev.s["law"]["level"])
    contact = ref.Contact(ev.X, ev.contact_faces, ev.normals, ev.law, 1)
    near = False
    free = np.setdiff1d(np.arange(ev.n), ev.fixed1)
    loose = np.zeros(ev.n)  # the motion without the obstacle
    loose[ev.fixed1] = ev.cval
    loose[free] = np.linalg.solve(A[np.ix_(free, free)], b[free] - A[np.ix_(free, ev.fixed1)] @ loose[ev.fixed1])
    for fc, nrm, w, bs in contact.points():
        u = float(np.mean(static[list(fc), 0])) + dt * float(bs @ x[list(fc)])
        start = float(np.mean(static[list(fc), 0])) + dt * float(bs @ old[list(fc)])
        away = float(np.mean(static[list(fc), 0])) + dt * float(bs @ loose[list(fc)])
        near = near or abs(u - level) < 1e-3 or len({u >= level, start >= level, away >= level}) > 1
    mini = ref.Minimum(A, b, contact, static[:, 0:1], dt, ev.fixed1, ev.cval)
    if near:
        mon.seen("dnc-at-the-jump")
        return
    on = 0
    g = np.zeros(ev.n)
    for fc, nrm, w, bs in contact.points():
        v = float(bs @ x[list(fc)])
        u0 = float(np.mean(static[list(fc), 0]))
        p, beta = float(ev.s["law"]["p"]), float(ev.s["law"]["beta"])
        if u0 + dt * v >= level:
            on += 1
            d = 0.5 * (p * (u0 + dt * v - level) + beta * v) + 0.5 * v * (p * dt + beta)
            for j, node in enumerate(fc):
                g[node] += w * bs[j] * d
    r = (A @ x - b + g)[mini.free]
    Af = A[np.ix_(mini.free, mini.free)]
    scale = max(float(x @ A @ x), float(b[mini.free] @ np.linalg.solve(Af, b[mini.free])), 1e-300)
    err = float(np.sqrt(r @ np.linalg.solve(Af, r) / scale))
    mon.le("step-dnc", err, TOL, f"{ev.s['method']} step {k}: residual of the stationarity condition")
    mon.seen("contact-active", on)
