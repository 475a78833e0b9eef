"""Recorded products: entries, keys, values, frozen copies, ranges, and no influence on the run."""
import contextlib
import io

import numpy as np

from vf import evo, scen, sut
from vf.gen import f, rng_of

RULE = (
    "random runs of every solver that records products, repeated without products and with other output schedules; each entry is recomputed from "
    "the state of its step; copies and ranges are re-read after further updates; random histories of product operations against a model; "
    "non-trivial when recorded values differ between steps"
)
KINDS = ("static", "quasistatic", "dynamic", "relaxation", "wave")
REQUIRED = [f"kind-{k}" for k in KINDS] + ["keys", "recorder", "penetration", "no-contact", "intersection", "limit-points", "limit-found", "run-unchanged", "frozen-copy", "user-object", "range", "range-edge", "copy-independent", "late-attach", "resumed", "model", "same-name", "profile", "profile-exact"]
ASSUMPTIONS = ["cross sections are taken through rectangular membranes", "coupled solvers do not record products"]
FINDING = "name-collision"


def spec(rng, kind):
    if kind == "wave":
        s = evo.wave_spec(rng, str(rng.choice(["boundary", "interior", "interior", "free"])))
        s["mesh"] = dict(scen.mesh2(rng, 4), shape="square", m=int(rng.integers(2, 5)), jitter=0.2)
        s["mesh"].pop("affine", None)
        s["mesh"]["diag"] = str(rng.choice(["left", "right", "random"]))
        s["inner"] = {"const": [f(rng.choice([-8.0, 8.0])), 0.0][:1], "amp": str(rng.choice(["one", "sin", "tail"]))}
    else:
        s = evo.spec(rng, "quasistatic" if kind == "static" else kind, method="schur", laws=("slope", "gap", "adhesive"), nmax=3)
        s["kind"] = kind
    s["n"] = int(rng.integers(2, 7)) if s["method"] != "global" else 3
    return s


def cases(tier, seed):
    n, nm, nj = (8, 60, 1) if tier == "quick" else (120, 2000, 8)
    out = []
    for kind in KINDS:
        for i in range((n if kind != "wave" else 2 * n) + (nj if kind == "wave" else 0)):
            rng = rng_of("C20", seed, kind, i)
            s = spec(rng, kind)
            plan = sorted(int(v) for v in rng.integers(0, s["n"] + 1, size=3)) + [s["n"]]
            out.append({"kind": kind, "mode": "run", "s": s, "plan": plan, "x": f(rng.uniform(0.05, 0.95), 3), "level": f(rng.choice([0.0, 0.01, -0.01, 0.05]), 4), "seed": int(rng.integers(0, 2**31)), "jit": int(kind == "wave" and i >= 2 * n), "w": 4 if s["method"] == "global" else 2})
    for i in range(nm):
        rng = rng_of("C20", seed, "model", i)
        out.append({"kind": "model", "mode": "model", "seed": int(rng.integers(0, 2**31)), "w": 0.1})
    for i in range(24 if tier == "quick" else 400):
        rng = rng_of("C20", seed, "profile", i)
        n, m = [(3, 3), (3, 7), (1, 7), (7, 7), (1, 15)][i % 5]
        mesh = {"shape": "square", "n": n, "m": m, "jitter": 0.0, "diag": str(rng.choice(["left", "right", "random"])), "lx": f(rng.uniform(0.5, 2.0), 2), "ly": float(m), "shuffle": 1, "seed": int(rng.integers(0, 2**31))}
        if rng.random() < 0.4:
            mesh["shift"] = [f(rng.uniform(-2, 2), 2), float(rng.integers(-3, 4))]
        rows = [int(v) for v in rng.integers(-2, 3, size=m + 1)]
        for j in range(1, m + 1):
            if rows[j] == 0 and (rows[j - 1] == 0 or j == m):
                rows[j] = int(rng.choice([-2, -1, 1, 2]))
        out.append({"kind": "profile", "mode": "profile", "mesh": mesh, "rows": rows, "level": float(rng.choice([0.0, 0.5, -0.25])), "x": f(rng.uniform(0.1, 0.9), 3), "w": 0.5})
    out.append({"kind": "names", "mode": "names", "s": spec(rng_of("C20", seed, "names"), "wave"), "w": 2})
    return out


def run(case, mon):
    {"run": run_run, "model": run_model, "names": run_names, "profile": run_profile}[case["mode"]](case, mon)


def classes():
    from conmech.state.products.intersection_contact_limit_points import VerticalIntersectionContactLimitPoints
    from conmech.state.products.penetration import Penetration
    from conmech.state.products.product import Product
    from conmech.state.products.verticalintersection import VerticalIntersection

    class Recorder(Product):
        """what a user would write: keep what was there at every step"""

        def __init__(self):
            super().__init__("recorder")

        def update(self, state):
            self.data[state.time] = (np.array(state.displacement), np.array(state.velocity), np.array(state.displaced_nodes), np.array(state.absement))

    return Recorder, Penetration, VerticalIntersection, VerticalIntersectionContactLimitPoints


class Point:
    """piecewise linear interpolation in one element after the other"""

    def __init__(self, X, E):
        self.X, self.E = X, E
        self.inv = np.linalg.inv(np.concatenate([np.ones((len(E), 3, 1)), X[E]], axis=2))

    def __call__(self, values, p):
        lam = np.einsum("k,ekj->ej", np.array([1.0, p[0], p[1]]), self.inv)
        i = int(np.argmax(lam.min(axis=1)))
        if lam[i].min() < -1e-9:
            return None
        return float(lam[i] @ values[self.E[i]])


def execute(case, products, plan):
    s = case["s"]
    if s["kind"] == "static":
        sc = scen.Scenario(s)
        solver = sut.C().ps.StaticSolver(sut.static_problem(sc.descr, sc.bnd, s["mu"], s["la"], sc.law, sc.inner, sc.outer), s["method"])
        sc.bind(solver.body.mesh)
        kw = {} if products is None else {"products": products}
        with contextlib.redirect_stdout(io.StringIO()):
            st = solver.solve(initial_displacement=lambda x: np.zeros_like(x), **kw)
        return sc, solver, [st]
    ev = evo.Evo(s)
    solver = ev.make_solver()
    kw = {} if products is None else {"products": products}
    if plan is None:  # the default schedule: the final state
        args = dict(ev.initial(), **kw)
        if s.get("opt"):
            args["method"] = s["opt"]
        with contextlib.redirect_stdout(io.StringIO()):
            return ev, solver, list(solver.solve(n_steps=s["n"], **args))
    return ev, solver, ev.run(solver, s["n"], plan, **kw)


def run_run(case, mon):
    s = case["s"]
    static = s["kind"] == "static"
    n = 1 if static else s["n"]
    Recorder, Penetration, Cut, Limits = classes()
    ev, _, plain = execute(case, None, None if static else list(range(1, n + 1)))
    trace = [evo.Snap(x) for x in plain]
    mon.seen(f"kind-{s['kind']}")
    X, E = ev.X, ev.E
    lo, hi = X[:, 0].min(), X[:, 0].max()
    x = lo + case["x"] * (hi - lo)
    cut = s["kind"] == "wave"
    for plan in ([None] if static else [list(range(1, n + 1)), case["plan"], None]):
        mine = [Recorder(), Penetration()] + ([Cut(x), Limits(x, case["level"])] if cut else [])
        names = [p.name for p in mine]
        ev2, solver, states = execute(case, mine, plan)
        steps = [1] if static else plan if plan is not None else [n]
        for k, st in zip(steps, states):
            if k:
                ref_ = trace[k - 1]
                for name in ("displacement", "velocity", "absement"):
                    mon.close("run-unchanged", getattr(st, name), getattr(ref_, name), 1e-10, np.abs(getattr(ref_, name)).max() + 1e-12, f"plan {plan} step {k} {name}")
            if not mon.check("keys", k == 0 or sorted(st.products) == sorted(names), f"plan {plan} step {k}: products {sorted(st.products)}"):
                continue
            if k:
                entries(mon, case, ev2, st.products, trace[:k], cut, x, f"plan {plan} state of step {k}")
        last = {q: p.copy() for q, p in states[-1].products.items()}
        for p in mine:
            mon.check("user-object", sorted(p.data) == sorted(states[-1].products[p.name].data), f"plan {plan}: the user's {p.name} has {len(p.data)} entries")
            if static:
                continue
            mon.check("frozen-copy", states[-1].products[p.name] is not p and states[-1].products[p.name].data is not p.data, f"{p.name}: the returned product is the live one")
        # copies stay as they are when the live product goes on
        if static:  # the returned state is the solver's own
            states = []
        kept = [{q: list(p.data) for q, p in st.products.items()} for st in states]
        for p in mine:
            p.data[1e9] = None
        for st, had in zip(states, kept):
            mon.check("frozen-copy", {q: list(p.data) for q, p in st.products.items()} == had, "a returned product changed with the live one")
        ranges(mon, case, last)
    if s["kind"] == "wave" and n > 1:
        late(mon, case, trace, n)
    disp = [t.displacement for t in trace]
    if np.abs(disp[-1]).max() > 1e-9 and (static or np.abs(disp[-1] - disp[0]).max() > 1e-9):
        mon.nontrivial(disp[-1])


def times(trace):
    return [t.time for t in trace]


def entries(mon, case, ev, products, trace, cut, x, tag):
    want = times(trace)
    for name, p in products.items():
        got = list(p.data)
        mon.check("keys", len(got) == len(want) and np.allclose(got, want, rtol=1e-9, atol=1e-12), f"{tag} {name}: keys {got[:6]} for steps at {want[:6]}")
    X, E = ev.X, ev.E
    cn = [v for v in ev.bnodes if ev.is_contact(X[v]) and v not in set(ev.dn.tolist())]
    locate = Point(X, E) if cut else None
    y0, y1 = X[:, 1].min(), X[:, 1].max()
    step = 0.5 / len(X)
    for st, key in zip(trace, list(products["recorder"].data)):
        rec = products["recorder"].data[key]
        for a, b, what in zip(rec, (st.displacement, st.velocity, st.displaced_nodes, st.absement), ("displacement", "velocity", "moved nodes", "absement")):
            mon.close("recorder", a, b, 1e-10, np.abs(b).max() + 1e-12, f"{tag} {what} at {key}")
        if key in products["penetration"].data:
            want_p = (X + st.displacement)[cn, 1].min() if cn else 0.0
            mon.close("penetration", float(products["penetration"].data[key]), float(want_p), 1e-10, np.abs(X).max() + np.abs(st.displacement).max(), f"{tag} at {key}")
            if not cn:
                mon.seen("no-contact")
        if not cut:
            continue
        u = st.displacement[:, 0]
        for name, p in products.items():
            if key not in p.data or not hasattr(p, "level"):
                continue
            if name.startswith("intersection"):
                space, vals = p.data[key]
                ok = len(space) == len(vals) and len(space) >= 2 and abs(space[0] - y0) < 1e-9 and abs(space[-1] - y1) < 1e-9 and (np.diff(space) > 0).all()
                mon.check("intersection", ok and (space[1] - space[0]) <= 2.5 * step, f"{tag}: sampled {len(space)} points from {space[0]} to {space[-1]}")
                filled = np.ma.filled(np.ma.asarray(vals, dtype=float), np.nan)
                for i in range(0, len(space), max(1, len(space) // 12)):
                    w = locate(u, (x, space[i]))
                    if w is not None and np.isfinite(filled[i]):
                        mon.close("intersection", filled[i], w, 1e-8, np.abs(u).max() + 1e-12, f"{tag} at y={space[i]:.6g}")
                    elif w is not None and y0 + 1e-6 < space[i] < y1 - 1e-6:
                        mon.check("intersection", False, f"{tag}: no value at y={space[i]:.6g} inside the membrane")
            else:
                pts = list(p.data[key])
                size = np.abs(u).max() + 1e-12
                for y in pts:
                    w = locate(u, (x, y))
                    mon.check("limit-points", w is not None and abs(w - case["level"]) <= 1e-7 * size + 1e-12, f"{tag}: {y} is not a crossing, deflection {w}")
                    mon.seen("limit-found")
                mon.check("limit-points", all(a < b for a, b in zip(pts, pts[1:])), f"{tag}: not increasing {pts}")
                # every crossing of the piecewise linear deflection wider than the sampling is reported
                ys = np.arange(y0, y1 - 1.5 * step, step)
                vals = np.array([locate(u, (x, y)) for y in ys], dtype=float) - case["level"]
                sure = np.abs(vals) > 1e-9 * size
                for i in range(1, len(ys) - 1):
                    if sure[i - 1] and sure[i] and vals[i - 1] * vals[i] < 0:
                        mon.check("limit-points", any(ys[i - 1] - 1e-7 <= y <= ys[i] + 1e-7 for y in pts), f"{tag}: the crossing between {ys[i-1]:.6g} and {ys[i]:.6g} is not among {pts}")
                if sure.all() and (vals > 0).all() or (vals < 0).all():
                    mon.check("limit-points", all(y > ys[-1] for y in pts), f"{tag}: crossings {pts} of a deflection that stays on one side")


def ranges(mon, case, products):
    rng = np.random.default_rng(case["seed"])
    for name, p in products.items():
        keys = list(p.data)
        cand = keys + [-1.0, 0.0, 1e6] + [k + 1e-3 for k in keys] + [k - 1e-3 for k in keys]
        for _ in range(6):
            a, b = (float(v) for v in rng.choice(cand, 2))
            want = [k for k in keys if a < k <= b]
            r = p.range(a, b)
            mon.check("range", list(r.data) == want, f"{name} range({a}, {b}) of {keys} has {list(r.data)}")
            if a in keys or b in keys:
                mon.seen("range-edge")
            mon.check("range", list(p.data) == keys, f"{name}: range changed the original")
            mon.check("range", type(r) is type(p) and r.name == p.name, f"{name}: range returns {type(r).__name__} {r.name}")
            mon.check("range", all(r.data[k] is p.data[k] or np.array_equal(np.asarray(r.data[k], dtype=object).shape, np.asarray(p.data[k], dtype=object).shape) for k in want), f"{name}: values changed in a range")
        c = p.copy()
        c.data[-5.0] = 1
        mon.check("copy-independent", list(p.data) == keys, f"{name}: writing to a copy changed the original")


def late(mon, case, trace, n):
    """products attached while the run is under way see only the later steps; a product of the
    state itself goes on"""
    s = case["s"]
    Recorder = classes()[0]
    m = 1 + case["seed"] % (n - 1)
    ev = evo.Evo(s)
    solver = ev.make_solver()
    (half,) = ev.run(solver, m, [m])
    mine = Recorder()
    (end,) = ev.run(solver, n - m, [n - m], state=half, products=[mine])
    want = times(trace)[m:]
    mon.check("late-attach", np.allclose(list(mine.data), want, rtol=1e-9) and len(mine.data) == len(want), f"attached after step {m}: {list(mine.data)}, expected {want}")
    if s["method"] != "direct":  # recorded finding: stale right-hand side of the direct method
        mon.close("late-attach", end.displacement, trace[-1].displacement, 1e-6, np.abs(trace[-1].displacement).max() + 1e-12, "resumed run")
    ev = evo.Evo(s)
    solver = ev.make_solver()
    first = Recorder()
    (half,) = ev.run(solver, m, [m], products=[first])
    (end,) = ev.run(solver, n - m, [n - m], state=half)
    mon.check("resumed", len(end.products["recorder"].data) == n and len(first.data) == m, f"{len(end.products['recorder'].data)} and {len(first.data)} entries after {m} + {n - m} steps")


def run_profile(case, mon):
    """limit points of a given deflection whose crossings are known, also exactly at sampled points"""
    from conmech.state.products.intersection_contact_limit_points import VerticalIntersectionContactLimitPoints
    from conmech.state.state import State

    sc = scen.Scenario({"mesh": case["mesh"], "contact": "none", "dirichlet": "left", "law": {"law": "slope", "p": 1.0, "g": 0.0}, "inner": {"const": [0.0, 0.0], "amp": "one"}, "outer": {"const": [0.0, 0.0], "amp": "one"}})
    solver = sut.C().ps.StaticSolver(sut.static_problem(sc.descr, sc.bnd, 1.0, 1.0, sc.law, sc.inner, sc.outer), "schur")
    mesh = solver.body.mesh
    y0 = mesh.nodes[:, 1].min()
    x0, x1 = mesh.nodes[:, 0].min(), mesh.nodes[:, 0].max()
    state = State(solver.body)
    p = VerticalIntersectionContactLimitPoints(x0 + case["x"] * (x1 - x0), case["level"])
    state.inject_product(p)
    rows = case["rows"]
    tops = len(rows) - 1
    for k, sign in enumerate((1.0, -1.0)):
        vals = sign * np.array(rows, dtype=float)[np.rint(mesh.nodes[:, 1] - y0).astype(int)] * 0.25 + case["level"]
        state.set_displacement(np.stack([vals, np.zeros_like(vals)]).ravel(), time=1.0 + k)
        want, touch = [], []
        for j in range(tops):
            a, b = sign * rows[j], sign * rows[j + 1]
            if a == 0:
                (want if j and sign * rows[j - 1] * b < 0 else touch).append(float(j))
            elif a * b < 0:
                want.append(j + a / (a - b))
        got = [float(y) - y0 for y in p.data[state.time]]
        text = f"rows {rows} * {sign}: limit points {got}, crossings {want}, touches {touch}"
        for y in want:
            if y < tops - 1.5 / (2 * len(mesh.nodes)):
                mon.check("profile", sum(abs(g - y) < 1e-6 for g in got) == 1, text)
                if y == round(y):
                    mon.seen("profile-exact")
        mon.check("profile", all(min([abs(g - y) for y in want + touch] + [9.0]) < 1e-6 for g in got), text)
    mon.nontrivial(tuple(rows))


def run_names(case, mon):
    s = case["s"]
    _, _, Cut, _ = classes()
    ev = evo.Evo(s)
    solver = ev.make_solver()
    x0, x1 = ev.X[:, 0].min(), ev.X[:, 0].max()
    mid = round(0.5 * (x0 + x1), 2)
    far, near = [Cut(x0 + 0.25 * (x1 - x0)), Cut(x0 + 0.75 * (x1 - x0))], [Cut(mid + 0.001), Cut(mid + 0.002)]
    (end,) = ev.run(solver, 2, [2], products=far)
    mon.check("same-name", all(len(c.data) == 2 for c in far) and len(end.products) == 2, "two cross sections")
    ev = evo.Evo(s)
    solver = ev.make_solver()
    (end,) = ev.run(solver, 2, [2], products=near)
    ok = all(len(c.data) == 2 for c in near) and len(end.products) == 2
    mon.check("same-name", ok, f"cross sections at {mid + 0.001} and {mid + 0.002} have {[len(c.data) for c in near]} entries after two steps", FINDING if [len(c.data) for c in near] == [0, 2] else None)


def run_model(case, mon):
    """random histories of updates, copies and ranges of a user's product"""
    from conmech.state.products.product import Product

    class Mine(Product):
        def __init__(self, extra):
            super().__init__("mine")
            self.extra = extra

        def update(self, state):
            self.data[state.time] = state.value + self.extra

    class State:
        pass

    rng = np.random.default_rng(case["seed"])
    alive = [(Mine(float(rng.normal())), {})]
    t = 0.0
    for _ in range(int(rng.integers(5, 40))):
        i = int(rng.integers(0, len(alive)))
        p, m = alive[i]
        op = int(rng.integers(0, 5))
        if op < 3:
            st = State()
            t += float(rng.choice([0.0, 0.1, 0.1, 1.0]))
            st.time, st.value = t, float(rng.normal())
            p.update(st)
            m[t] = st.value + p.extra
        elif op == 3:
            import copy

            alive.append(((p.copy() if rng.random() < 0.5 else copy.copy(p)), dict(m)))
        else:
            keys = list(m) + [0.0, t]
            a, b = float(rng.choice(keys)), float(rng.choice(keys))
            alive.append((p.range(a, b), {k: v for k, v in m.items() if a < k <= b}))
        for q, w in alive:
            mon.check("model", q.data == w and type(q) is Mine, f"{q.data} instead of {w}")
    mon.nontrivial(len(alive), t, repr(alive[-1][1]))
