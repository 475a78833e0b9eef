"""Every observed step of a relaxation run balances elasticity, relaxation, loads and contact."""
import numpy as np

from vf import evo, ref, scen
from vf.gen import rng_of

RULE = (
    "random relaxation runs (mesh, partition, material, tensor constant or varying in time, load history, law, initial absement, time step, "
    "method); every step is compared with an independent minimiser started from the previous observed state"
)
REQUIRED = ["step", "later-step", "absement", "contact-active", "schur", "global", "linear-step", "long-run", "stiff"]
ASSUMPTIONS = ["tensors are such that the step problem is convex"]
TOL = 5e-4


def cases(tier, seed):
    n, nj = (90, 2) if tier == "quick" else (1500, 12)
    out = []
    for i in range(n + nj):
        rng = rng_of("C17", seed, i)
        s = evo.spec(rng, "relaxation", laws=("slope", "gap", "cubic", "adhesive", "friction"))
        evo.units(s, rng)
        out.append({"kind": s["method"], "s": s, "w": s["n"] * (1 if s["method"] == "schur" else 5), "jit": int(i >= n)})
    for i in range(24 if tier == "quick" else 300):
        s = evo.linear_spec(rng_of("C17", seed, "linear", i), "relaxation")
        out.append({"kind": "linear", "mode": "linear", "s": s, "w": 6})
    return out


def run(case, mon):
    if case["kind"] == "linear":
        ev, trace = evo.linear_check(mon, case["s"], "linear-step")
        return absement(mon, trace, case["s"]["dt"])
    s = case["s"]
    ev, solver, trace = evo.trace_check(mon, s, "step", TOL)
    absement(mon, trace, s["dt"])


def absement(mon, trace, dt):
    for k in range(1, len(trace)):
        prev, now = trace[k - 1], trace[k]
        mon.close("absement", now.absement, prev.absement + dt * now.displacement, 1e-10, max(1e-300, np.abs(now.absement).max()), f"step {k}")
