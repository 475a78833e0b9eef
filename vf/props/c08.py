"""Dirichlet nodes carry the prescribed values in every returned state."""
import contextlib
import io

import numpy as np

from vf import evo, gen, ref, scen, sut
from vf.gen import f, rng_of

RULE = (
    "random problems of every type and method with Dirichlet parts given by smooth, piecewise and absent boundary functions, several "
    "electrodes, non-contiguous node sets and initial states that violate the condition; every returned state is read at the Dirichlet nodes"
)
KINDS = ("static", "static3", "poisson") + evo.KINDS
REQUIRED = [f"values-{k}" for k in KINDS] + ["electrodes", "several-electrodes", "many-electrodes", "absent-electrode", "no-function", "piecewise", "gaps", "initial-violates", "schur", "global", "direct"]
ASSUMPTIONS = ["overlapping electrodes prescribe the same value at shared nodes"]
PARTS = [("bottom", "top"), ("bottom", "left|right"), ("right", "left"), ("bottom", "left:0:0.5|top:0.3:1"), ("bottom", "left|top|right"), ("bottom:0.2:1", "top:0:0.4|right"), ("left:0:0.5", "right")]


def value_spec(rng):
    return {"c": f(rng.uniform(-0.3, 0.3), 3), "g": np.round(rng.uniform(-0.3, 0.3, 3), 3).tolist(), "step": f(rng.choice([0.0, 0.0, 0.4])), "at": f(rng.uniform(0.2, 0.8), 2), "axis": int(rng.integers(0, 2))}


def value(spec, unit):
    def fn(x):
        x = np.asarray(x, dtype=float)
        v = spec["c"] + x @ np.array(spec["g"])[: x.shape[1]]
        if spec["step"]:
            v = v + np.array([spec["step"] if unit(p)[spec["axis"]] > spec["at"] else 0.0 for p in x])
        return v

    return fn


def cases(tier, seed):
    per, nj = (10, 1) if tier == "quick" else (150, 10)
    out = []
    for kind in KINDS:
        for i in range(per + (nj if kind in ("static", "poisson", "wave") else 0)):
            rng = rng_of("C08", seed, kind, i)
            con, dirich = PARTS[int(rng.integers(0, len(PARTS)))]
            case = {"kind": kind, "cond": value_spec(rng) if rng.random() < 0.8 else None, "jit": int(i >= per)}
            if kind == "static3":
                case["s"] = {"d": 3, "mesh": gen.mesh3(rng, 2, shapes=["cube", "box", "lcube"]), "contact": "none", "dirichlet": str(rng.choice(["left", "left|right", "left|top"])), "method": str(rng.choice(["direct", "global"])), "law": {"law": "none"}, "mu": 2.0, "la": 3.0, "inner": scen.load(rng, 3), "outer": scen.load(rng, 3)}
            elif kind in ("static", "poisson"):
                case["s"] = {"mesh": scen.mesh2(rng, 4), "contact": con, "dirichlet": dirich, "method": str(rng.choice(["schur", "global", "direct"])) if kind == "static" else "direct", "law": scen.law(rng, ("slope", "gap", "adhesive")), "mu": gen.coef(rng), "la": gen.coef(rng), "inner": scen.load(rng, 2), "outer": scen.load(rng, 2)}
                if case["s"]["method"] == "global":
                    case["s"]["mesh"] = scen.mesh2(rng, 2)
            else:
                if kind == "wave":
                    s = evo.wave_spec(rng, str(rng.choice(["boundary", "boundary", "interior", "free"])))
                    if s["contact"] != "none":
                        s["contact"], s["dirichlet"] = con, dirich
                    else:
                        s["dirichlet"] = dirich
                else:
                    s = evo.spec(rng, kind, laws=("slope", "gap", "adhesive"), nmax=2)
                    s["contact"], s["dirichlet"] = con, dirich
                s["n"] = 2
                if s["method"] == "global":
                    s["mesh"] = scen.mesh2(rng, 2)
                s.pop("c", None)
                if kind.startswith("piezo"):
                    s["piezo_dirichlet"] = None
                    case["electrodes"] = electrodes(rng) if i % 5 != 2 else MANY
                    case["pcond"] = value_spec(rng)
                case["s"] = s
            case["w"] = 2 if kind not in evo.COUPLED else 6
            out.append(case)
    return out


MANY = {f"piezo_dirichlet_{k}": f"{('left', 'top', 'right')[k % 3]}:{k // 3 * 0.25}:{k // 3 * 0.25 + 0.25}" for k in range(12)}


def electrodes(rng):
    sets = [
        {"piezo_dirichlet": "left"},
        {"piezo_dirichlet": "left|right"},
        {"piezo_dirichlet": "top|right"},
        {"piezo_dirichlet_0": "left", "piezo_dirichlet_1": "right"},
        {"piezo_dirichlet_0": "top", "piezo_dirichlet_1": "left", "piezo_dirichlet_2": "right"},
        {"piezo_dirichlet_0": "left:0.41:0.42", "piezo_dirichlet_1": "right"},  # no face has its centre in the first one
        {},
        MANY,
    ]
    return sets[int(rng.integers(0, len(sets)))]


def run(case, mon):
    kind, s = case["kind"], case["s"]
    if kind in evo.KINDS:
        return evolution(case, mon)
    unit = sut.to_unit(s["mesh"])
    d = s.get("d", 2)
    is_d = sut.region(s["dirichlet"], unit)
    fn = value(case["cond"], unit) if case["cond"] else None
    conds = {"dirichlet": fn} if fn else {}
    descr, _, _ = sut.descr(s["mesh"])
    bnd = sut.boundaries({"contact": s["contact"] if kind != "poisson" else "none", "dirichlet": s["dirichlet"]}, unit, **conds)
    ps = sut.C().ps
    f_in, f_out = sut.vec_field(s["inner"], d), sut.vec_field(s["outer"], d)
    if kind == "poisson":
        solver = ps.PoissonSolver(sut.poisson_problem(descr, bnd, lambda x, t=None: f_in(x, t)[:1], lambda x, t=None: f_out(x, t)[:1]), s["method"])
    else:
        law = sut.law(s["law"]) if s["method"] != "direct" or s["contact"] != "none" else None
        solver = ps.StaticSolver(sut.static_problem(descr, bnd, s["mu"], s["la"], law, lambda x, t=None, v=None: f_in(x, t), lambda x, t=None, v=None: f_out(x, t)), s["method"])
    X = np.array(solver.body.mesh.nodes)
    dn = dirichlet_nodes(X, solver.body.mesh.elements, is_d)
    want = fn(X[dn]) if fn else np.zeros(len(dn))
    report(mon, case, dn, want)
    for shift in (0.0, 0.7):
        with contextlib.redirect_stdout(io.StringIO()):
            st = solver.solve() if kind == "poisson" else solver.solve(initial_displacement=lambda x: shift + np.zeros_like(x))
        if shift:
            mon.seen("initial-violates")
        got = np.asarray(st.temperature).reshape(-1, 1) if kind == "poisson" else st.displacement
        for k in range(got.shape[1]):
            mon.close(f"values-{kind}", got[dn, k], want, 1e-12, 1.0, f"{s['method']} component {k}")
        mon.check("finite", bool(np.isfinite(got).all()), "non-finite solution")
        if kind != "poisson":
            mon.close(f"values-{kind}", st.displaced_nodes[dn], X[dn] + want[:, None], 1e-12, 1 + np.abs(X).max(), "moved nodes")
    mon.seen(s["method"])
    if len(dn):
        mon.nontrivial(X[dn], want)


def dirichlet_nodes(X, E, is_d):
    bn = sorted({v for fc, _ in ref.Fem(X, np.array(E)).boundary() for v in fc})
    return np.array([v for v in bn if is_d(X[v])], dtype=int)


def electrode_nodes(X, E, is_p):
    """nodes of the faces whose centre the predicate selects"""
    out = set()
    for fc, _ in ref.Fem(X, np.array(E)).boundary():
        if is_p(X[list(fc)].mean(axis=0)):
            out |= set(fc)
    return np.array(sorted(out), dtype=int)


def report(mon, case, dn, want):
    if case["cond"] is None:
        mon.seen("no-function")
    elif case["cond"]["step"]:
        mon.seen("piecewise")


class Evo8(evo.Evo):
    """the scenario with an arbitrary boundary function and any set of electrodes"""

    def __init__(self, case):
        self.case = case
        super().__init__(case["s"])

    def make_problem(self):
        case, s = self.case, self.s
        fn = value(case["cond"], self.unit) if case["cond"] else None
        self.value = fn
        kw = {"contact": self.is_contact, "dirichlet": (self.is_dirichlet, fn) if fn else self.is_dirichlet}
        for name, text in (case.get("electrodes") or {}).items():
            kw[name] = (sut.region(text, self.unit), value(case["pcond"], self.unit))
        self.bnd = sut.C().BoundariesDescription(**kw)
        return super().make_problem()


def evolution(case, mon):
    s = case["s"]
    ev = Evo8(case)
    if case.get("electrodes") == {}:
        # without electrodes the potential is only determined by its contact law
        s["law2"] = {"law": "adhesive", "p": 1.0, "g": 0.2}
        ev = Evo8(case)
    solver = ev.make_solver()
    states = ev.run(solver, s["n"])
    X, dn = ev.X, ev.dn
    want = ev.value(X[dn]) if ev.value else np.zeros(len(dn))
    report(mon, case, dn, want)
    mon.seen(s["method"])
    for k, st in enumerate(states, 1):
        name = f"values-{s['kind']}"
        if s["kind"] == "wave":
            mon.close(name, st.velocity[dn, 0], want, 1e-12, 1.0, f"{s['method']} step {k}")
        elif s["kind"] == "relaxation":
            for a in range(2):
                mon.close(name, st.displacement[dn, a], want, 1e-12, 1.0, f"{s['method']} step {k} component {a}")
        else:
            for a in range(2):
                mon.close(name, st.velocity[dn, a], want, 1e-12, 1.0, f"{s['method']} step {k} component {a}")
        if s["kind"] == "temperature":
            mon.close(name, st.temperature[dn], want, 1e-12, 1.0, f"{s['method']} step {k} temperature")
        if s["kind"].startswith("piezo"):
            live = 0
            for e, text in case["electrodes"].items():
                nodes = electrode_nodes(X, ev.E, sut.region(text, ev.unit))
                live += bool(len(nodes))
                if not len(nodes):
                    mon.seen("absent-electrode")
                if np.any(np.diff(nodes) > 1):
                    mon.seen("gaps")
                mon.close("electrodes", st.electric_potential[nodes], value(case["pcond"], ev.unit)(X[nodes]), 1e-12, 1.0, f"{s['method']} step {k} {e}")
            if live > 1:
                mon.seen("several-electrodes")
            if len(case["electrodes"]) > 9:
                mon.seen("many-electrodes")
    if np.abs(ev.start().velocity[dn]).max(initial=0) > 0:
        mon.seen("initial-violates")
    if len(dn):
        mon.nontrivial(X[dn], want, states[-1].displacement)
