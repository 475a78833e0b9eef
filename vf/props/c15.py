"""Piezoelectric runs: both balances hold at every step."""
import numpy as np

from vf import evo, ref, scen
from vf.gen import rng_of

RULE = (
    "random piezoelectric runs, quasistatic and dynamic; at every step velocity and potential are compared with independent minimisers of "
    "the momentum balance (given the new potential) and the electrostatic equation (given the new displacement); plus uncoupled runs"
)
REQUIRED = ["momentum", "potential", "later-step", "contact-active", "uncoupled", "electrodes", "grounded", "schur", "global", "piezo_quasistatic", "piezo_dynamic", "linear-momentum", "linear-potential", "sweeps-matter"]
ASSUMPTIONS = ["the staggered iteration contracts by at least 0.3 per sweep; its remaining error (factor^4) is allowed on top of the tolerance"]
TOL = 1e-3


def spec(rng, kind):
    s = evo.spec(rng, kind, laws=("slope", "gap", "cubic", "adhesive", "friction", "evolving"))
    s["n"] = int(rng.integers(2, 5))
    if s["method"] == "global":
        s["mesh"] = scen.mesh2(rng, 2)
        s["n"] = 2
    return s


def cases(tier, seed):
    n, nu, nj = (60, 6, 1) if tier == "quick" else (1000, 80, 8)
    out = []
    for i in range(n + nj):
        s = spec(rng_of("C15", seed, i), ("piezo_quasistatic", "piezo_dynamic")[i % 2])
        out.append({"kind": f"{s['kind']}-{s['method']}", "mode": "coupled", "s": s, "w": weight(s), "jit": int(i >= n)})
    for i in range(nu):
        s = spec(rng_of("C15", seed, "u", i), ("piezo_quasistatic", "piezo_dynamic")[i % 2])
        s["piezo"] = np.zeros((2, 2, 2)).tolist()
        out.append({"kind": "uncoupled", "mode": "uncoupled", "s": s, "w": weight(s)})
    for i in range(24 if tier == "quick" else 300):
        s = evo.linear_spec(rng_of("C15", seed, "linear", i), ("piezo_quasistatic", "piezo_dynamic")[i % 2])
        out.append({"kind": "linear", "mode": "linear", "s": s, "w": 6})
    return out


def weight(s):
    return 4 * s["n"] * (1 if s["method"] == "schur" else 3)


def run(case, mon):
    s, mode = case["s"], case["mode"]
    if mode == "linear":
        evo.linear_check(mon, s, "linear-momentum", "linear-potential")
        return
    ev, solver, trace = evo.trace_check(mon, s, "momentum", TOL)
    mon.seen(s["kind"])
    if s.get("pc") is None and len(ev.dn2):
        mon.seen("grounded")
    for k in range(1, len(trace)):
        prev, now = trace[k - 1], trace[k]
        scen.judge(mon, "potential", ev.make2(prev, now), ev.second(now), TOL, ev.variants2(), f"{s['method']} step {k}")
        mon.close("electrodes", now.electric_potential[ev.dn2], ev.val2, 1e-10, 1.0, f"step {k}")
        mon.nontrivial(ev.second(now))
    if mode == "uncoupled":
        other = evo.Evo(dict(s, kind="quasistatic" if s["kind"] == "piezo_quasistatic" else "dynamic"))
        other.make_solver()
        other.M, other.M1 = ev.M, ev.M1  # the library gives piezoelectric bodies density 0.1
        other.load_time = lambda j: j * other.dt
        for k in range(1, len(trace)):
            scen.judge(mon, "uncoupled", other.make(trace[k - 1], k), other.unknown(trace[k]), TOL, scen.variants(other, s["method"]), f"step {k}")
