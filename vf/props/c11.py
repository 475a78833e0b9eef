"""Every observed step of a quasistatic or dynamic run balances momentum."""
import numpy as np

from vf import evo, ref, scen
from vf.gen import rng_of

RULE = (
    "random runs (mesh, partition, material, law, load history, boundary values, initial state, time step, method); every step of "
    "every run is compared in the energy norm with an independent minimiser started from the previous observed state; non-trivial "
    "when the body moves in that step"
)
REQUIRED = ["step-quasistatic", "step-dynamic", "later-step", "contact-active", "schur", "global", "linear-step", "long-run", "stiff"]
ASSUMPTIONS = ["laws are convex in the unknown; the optimiser's accuracy is part of the contract"]
TOL = 5e-4


def cases(tier, seed):
    n, nd, nj = (110, 8, 2) if tier == "quick" else (2000, 60, 16)
    out = []
    for i in range(n + nj):
        rng = rng_of("C11", seed, i)
        kind = ("quasistatic", "dynamic")[i % 2]
        s = evo.spec(rng, kind)
        if kind == "quasistatic":
            evo.units(s, rng)
        w = s["n"] * (1 if s["method"] == "schur" else 5)
        out.append({"kind": f"{kind}-{s['method']}", "s": s, "w": w, "jit": int(i >= n)})
    for i in range(nd):
        rng = rng_of("C11", seed, "direct", i)
        s = evo.spec(rng, "dynamic", "direct", laws=("slope", "gap", "cubic", "adhesive"), touching=False)
        out.append({"kind": "dynamic-direct", "s": s, "w": 3 * s["n"]})
    for i in range(24 if tier == "quick" else 300):
        s = evo.linear_spec(rng_of("C11", seed, "linear", i), ("quasistatic", "dynamic")[i % 2])
        out.append({"kind": "linear", "mode": "linear", "s": s, "w": 6})
    return out


def run(case, mon):
    if case["kind"] == "linear":
        evo.linear_check(mon, case["s"], "linear-step")
        return
    s = case["s"]
    if case["kind"] == "dynamic-direct":
        return run_direct(s, mon)
    evo.trace_check(mon, s, f"step-{s['kind']}", TOL)


def run_direct(s, mon):
    """the direct method never refreshes its right hand side (recorded finding)"""
    ev = evo.Evo(s)
    solver = ev.make_solver()
    trace = [ev.start()] + [evo.Snap(x) for x in ev.run(solver, s["n"])]
    for k in range(1, len(trace)):
        A, b, static, old = ev.step(trace[k - 1], k)

        def make(variant):
            if variant == "stale":
                return ev.minimum(A, ev.force(0.0), np.zeros_like(static), s["dt"])
            return ev.minimum(A, b, static, s["dt"])

        scen.judge(mon, "step-direct", make, ev.unknown(trace[k]), TOL, (("stale", "direct-dynamic-stale"),), f"direct step {k}")
        mon.nontrivial(trace[k].velocity)
