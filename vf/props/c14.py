"""Thermoviscoelastic runs: both balances hold at every step."""
import numpy as np

from vf import evo, ref, scen
from vf.gen import rng_of

RULE = (
    "random thermoviscoelastic runs; at every step velocity and temperature are compared with independent minimisers of the momentum "
    "balance (given the new temperature) and of the heat balance (given the new velocity); plus uncoupled and insulated runs"
)
REQUIRED = ["momentum", "heat", "later-step", "contact-active", "heat-conserved", "uncoupled", "schur", "global", "linear-momentum", "linear-heat", "sweeps-matter"]
ASSUMPTIONS = ["the staggered iteration contracts by at least 0.3 per sweep; its remaining error (factor^4) is allowed on top of the tolerance"]
TOL = 1e-3
KIND = "temperature"


def spec(rng, kind):
    s = evo.spec(rng, kind, laws=("slope", "gap", "cubic", "adhesive", "friction", "evolving"))
    s["n"] = int(rng.integers(2, 5))
    if s["method"] == "global":
        s["mesh"] = scen.mesh2(rng, 2)
        s["n"] = 2
    return s


def cases(tier, seed):
    n, nu, ni, nj = (56, 5, 6, 1) if tier == "quick" else (900, 60, 60, 8)
    out = []
    for i in range(n + nj):
        s = spec(rng_of("C14", seed, i), KIND)
        out.append({"kind": s["method"], "mode": "coupled", "s": s, "w": weight(s), "jit": int(i >= n)})
    for i in range(2 if tier == "quick" else 20):
        rng = rng_of("C14", seed, "partial", i)
        s = evo.partial(spec(rng, KIND), rng)
        out.append({"kind": "partial-side", "mode": "coupled", "s": s, "w": weight(s)})
    for i in range(nu):
        s = spec(rng_of("C14", seed, "u", i), KIND)
        s["expansion"] = [[0.0, 0.0], [0.0, 0.0]]
        out.append({"kind": "uncoupled", "mode": "uncoupled", "s": s, "w": 2 * weight(s)})
    for i in range(ni):
        rng = rng_of("C14", seed, "i", i)
        s = spec(rng, KIND)
        s["law2"] = {"law": "none"}
        s["dirichlet"] = "none"
        s.pop("c", None)
        s["contact"] = "bottom"
        out.append({"kind": "insulated", "mode": "insulated", "s": s, "w": weight(s)})
    for i in range(24 if tier == "quick" else 300):
        s = evo.linear_spec(rng_of("C14", seed, "linear", i), KIND)
        out.append({"kind": "linear", "mode": "linear", "s": s, "w": 6})
    return out


def weight(s):
    return 4 * s["n"] * (1 if s["method"] == "schur" else 3)


def run(case, mon):
    s, mode = case["s"], case["mode"]
    if mode == "linear":
        evo.linear_check(mon, s, "linear-momentum", "linear-heat")
        return
    ev, solver, trace = evo.trace_check(mon, s, "momentum", TOL)
    for k in range(1, len(trace)):
        prev, now = trace[k - 1], trace[k]
        scen.judge(mon, "heat", ev.make2(prev, now), ev.second(now), TOL, ev.variants2(), f"{s['method']} step {k}")
        mon.nontrivial(ev.second(now))
    if mode == "uncoupled":
        other = dict(s, kind="dynamic")
        uncoupled(mon, s, other, trace)
    if mode == "insulated":
        conserved(mon, ev, trace)


def uncoupled(mon, s, other, trace):
    """with a zero coupling tensor every velocity is the one of the mechanical problem"""
    ev = evo.Evo(other)
    ev.make_solver()
    for k in range(1, len(trace)):
        ev.load_time = lambda j: j * ev.dt  # coupled runs take the loads at the end of the step
        scen.judge(mon, "uncoupled", ev.make(trace[k - 1], k), ev.unknown(trace[k]), TOL, scen.variants(ev, s["method"]), f"step {k}")


def conserved(mon, ev, trace):
    """integrating the heat balance over the insulated body leaves only the deformation heating"""
    one = np.ones(ev.n)
    for k in range(1, len(trace)):
        prev, now = trace[k - 1], trace[k]
        change = one @ ev.M1 @ (now.temperature - prev.temperature)
        work = -ev.dt * one @ ev.TE @ ref.stack(now.velocity)
        scale = one @ ev.M1 @ np.abs(now.temperature) + one @ ev.M1 @ np.abs(prev.temperature) + 1e-12
        mon.le("heat-conserved", abs(change - work) / scale, 2e-4, f"step {k}")
