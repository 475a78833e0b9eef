"""Numbering, position, orientation and units: pairs of runs on transformed problems."""
import numpy as np
from scipy.spatial import cKDTree

from vf import evo, gen, meshes, ref, scen, sut
from vf.core import Skip
from vf.gen import f, rng_of
from vf.props import c13

RULE = (
    "random problems of every type, each solved twice: as described and after renumbering, moving (by coordinates or by initial position), rotating, "
    "mirroring, turning by right angles or rescaling lengths and stiffness, with loads, tensors, prescribed values and initial fields transformed "
    "accordingly; fields are compared at corresponding nodes; non-trivial when the field is not constant"
)
MOVES = ("renumber", "translate", "position", "rotate", "mirror", "swap", "scale", "combined")
KINDS = ("static", "poisson") + evo.KINDS
REQUIRED = [f"move-{m}" for m in MOVES] + [f"kind-{k}" for k in KINDS] + ["static-3d", "poisson-3d", "contact-active", "size-by-orders", "same-mesh", "normals", "contact-set", "global", "direct"]
ASSUMPTIONS = [
    "friction and contact act through normal and tangential parts; material is isotropic or given by tensors that are rotated along",
    "relaxation tensors are renumbered, moved and rescaled only: their storage is not that of a rotated tensor",
    "contact sides and fixed sides do not touch in runs of the global method (recorded findings)",
]
TOL = {"static": 3e-3, "poisson": 1e-7}
TENSORS = {"expansion": 2, "conductivity": 2, "piezo": 3, "permittivity": 2}


def spec(rng, kind, d=2):
    if kind == "poisson" or kind == "static":
        con, dirich = scen.PARTITIONS[int(rng.integers(0, len(scen.PARTITIONS)))]
        law = scen.law(rng, ("slope", "gap", "cubic", "adhesive", "friction", "friction"))
        method = str(rng.choice(["schur", "schur", "global", "direct"]))
        if kind == "poisson" or d == 3:
            con = "none"
        if d == 3:
            dirich = str(rng.choice(["left", "left|bottom", "front"]))
            method = str(rng.choice(["global", "direct"]))
        if law["law"] == "friction" and method == "direct":
            law = {"law": "slope", "p": 7.0}
        if method == "global" and d == 2:
            con, dirich = scen.PARTITIONS[int(rng.integers(0, 2))]
        dd = 1 if kind == "poisson" else d
        s = {
            "kind": kind,
            "d": d,
            "mesh": (gen.mesh3(rng, 2, shapes=["cube", "box", "lcube"]) if d == 3 else scen.mesh2(rng, 3)),
            "contact": con,
            "dirichlet": dirich,
            "law": law,
            "mu": gen.coef(rng, 1, 12),
            "la": gen.coef(rng, 1, 12),
            "method": "direct" if kind == "poisson" else method,
            "n": 1,
        }
        if kind == "poisson":
            s["fd"] = 1
            s["value"] = {"c": f(rng.uniform(-1, 1)), "g": np.round(rng.uniform(-1, 1, d), 3).tolist()}
        for k in ("inner", "outer"):
            s[k] = {"const": np.round(rng.uniform(-1, 1, dd), 3).tolist(), "amp": "one", "lin": np.round(rng.uniform(-0.5, 0.5, (dd, d)), 3).tolist()}
        if kind == "static" and rng.random() < 0.4:
            s["c"] = [f(rng.uniform(-0.1, 0.1), 3), np.round(rng.uniform(-0.1, 0.1, d), 3).tolist()]
    elif kind == "wave":
        s = evo.wave_spec(rng, str(rng.choice(["boundary", "boundary", "interior", "free"])))
        if s["method"] == "global" and s["contact"] != "none":
            s["contact"], s["dirichlet"] = ("right", "left") if s["contact"] != "top" else ("top", "bottom")
    else:
        s = evo.spec(rng, kind, laws=("slope", "gap", "adhesive", "friction", "evolving"), nmax=3)
        if s["method"] == "global":
            s["contact"], s["dirichlet"] = scen.PARTITIONS[int(rng.integers(0, 2))]
            s["mesh"] = scen.mesh2(rng, 2)
            if kind.startswith("piezo"):
                s["piezo_dirichlet"] = s["dirichlet"]
    if kind in evo.KINDS:
        s["n"] = int(rng.integers(2, 4))
        s["method"] = s["method"] if s["method"] != "global" or kind == "wave" or rng.random() < 0.5 else "schur"
        if s.get("law2"):
            s["law2"] = {"law": "none"}
        for k in ("u0", "v0", "b0"):
            if s.get(k):
                s[k] = {"const": s[k]["const"], "lin": np.round(rng.uniform(-0.1, 0.1, (2, 2)), 3).tolist()}
                if kind == "wave":
                    s[k] = {"const": [s[k]["const"][0], 0.0], "lin": [s[k]["lin"][0], [0.0, 0.0]]}
        for k in ("t0", "p0"):
            if s.get(k):
                s[k]["w"] = 0.0
        if s["method"] == "global":
            s["n"] = 2
    if s.get("law") and s["law"]["law"] == "evolving":
        s["law"]["g"] = f(rng.uniform(-0.03, 0.03), 4)
    return s


def allowed(s):
    out = ["renumber", "translate", "position", "scale"]
    if s["kind"] != "relaxation":
        out += ["rotate", "mirror", "swap", "combined"]
    if s.get("law") and s["law"]["law"] in ("evolving",):
        out.remove("scale")  # its penalty of the tangential part has no coefficient to scale
    return out


def motion(rng, move, d, s):
    Q, b, L, m = np.eye(d), np.zeros(d), 1.0, 1.0
    if move in ("translate", "position", "combined"):
        b = np.round(rng.uniform(-4, 4, d), 3)
    if move in ("rotate", "combined"):
        Q = gen.rotation(rng, d)
    if move == "mirror":
        Q = np.diag([-1.0] + [1.0] * (d - 1))
        if rng.random() < 0.5:
            Q = Q @ gen.rotation(rng, d)
    if move == "swap":
        Q = np.eye(d)[rng.permutation(d)]
        Q = np.diag(rng.choice([-1.0, 1.0], d)) @ Q
        if np.allclose(Q, np.eye(d)):
            Q = np.eye(d)[::-1].copy()
    if move == "scale":
        linear = s["kind"] in ("poisson", "static") and s["method"] == "direct"
        L = float(10.0 ** (rng.choice([-4, -3, 3, 4]) + rng.uniform(-0.3, 0.3)) if linear else np.exp(rng.uniform(-1.2, 1.2)))
        m = float(np.exp(rng.uniform(-1.0, 1.0)))
    inertial = s["kind"] in ("dynamic", "wave", "temperature", "piezo_dynamic")
    if inertial:
        m = L * L
    if s["kind"] == "poisson":
        m = 1.0
    perm = int(rng.integers(1, 2**31)) if move in ("renumber", "combined") or rng.random() < 0.3 else 0
    return {"move": move, "Q": Q.tolist(), "b": b.tolist(), "L": L, "m": m, "perm": perm, "pos": int(move == "position")}


def cases(tier, seed):
    n = 14 if tier == "quick" else 260
    out = []
    for kind in KINDS:
        count = {"static": 5 * n, "poisson": 3 * n, "wave": 2 * n}.get(kind, n)
        for i in range(count):
            rng = rng_of("C22", seed, kind, i)
            d = 3 if kind in ("static", "poisson") and i % 4 == 3 else 2
            s = spec(rng, kind, d)
            moves = allowed(s)
            if s.get("c") and kind not in ("wave",):  # one value for all components does not turn with the body
                moves = [x for x in moves if x in ("renumber", "translate", "position", "scale")]
            t = motion(rng, moves[i % len(moves)], d, s)
            w = {"global": 5, "direct": 1, "schur": 1}[s["method"]] * s["n"] * (3 if kind in evo.COUPLED else 1)
            out.append({"kind": kind + ("-3d" if d == 3 else ""), "s": s, "t": t, "w": w})
    for i in range(1 if tier == "quick" else 8):
        rng = rng_of("C22", seed, "jit", i)
        s = spec(rng, "static")
        s["mesh"] = scen.mesh2(rng, 3)
        s["method"], s["contact"], s["dirichlet"] = "schur", "bottom", "top"
        s.pop("c", None)
        out.append({"kind": "static", "s": s, "t": motion(rng, "combined", 2, s), "jit": 1, "w": 20})
    return out


# ------------------------------------------------------------------------------ transforming a problem
def vector(spec_, Q, b, L, m, scalar):
    """load at x' = L Q x + b"""
    const = np.array(spec_["const"], dtype=float)
    d = len(Q)
    lin = np.array(spec_.get("lin", np.zeros((len(const), d))), dtype=float)
    turn = np.eye(len(const)) if scalar else Q
    lin = turn @ lin @ Q.T / L
    return dict(spec_, const=(m * (turn @ const - lin @ b)).tolist(), lin=(m * lin).tolist())


def field(spec_, Q, b, L, scalar):
    const, lin = np.array(spec_["const"], dtype=float), np.array(spec_.get("lin", np.zeros((2, 2))), dtype=float)
    turn = np.eye(2) if scalar else Q
    lin = turn @ lin @ Q.T / L
    return {"const": (turn @ const - lin @ b).tolist(), "lin": lin.tolist()}


def affine(c, Q, b, L):
    c0, c1 = float(c[0]), np.array(c[1], dtype=float)
    g = Q @ c1 / L
    return [c0 - float(g @ b), g.tolist()]


def transform(s, t):
    Q, b, L, m = np.array(t["Q"]), np.array(t["b"]), t["L"], t["m"]
    d = len(Q)
    kind = s["kind"]
    scalar = s.get("fd") == 1
    o = dict(s)
    mesh = dict(s["mesh"])
    aff = np.array(mesh.get("affine") if mesh.get("affine") is not None else np.eye(d), dtype=float)
    shift = np.array(mesh.get("shift") if mesh.get("shift") is not None else np.zeros(d), dtype=float)
    mesh["affine"] = (L * Q @ aff).tolist()
    if t["pos"]:
        mesh["shift"] = (L * Q @ shift).tolist()
        mesh["pos"] = (meshes.build(dict(mesh, perm=0))[0].min(axis=0) + b).tolist()  # the lower corner of the body
        mesh["pos_by"] = b.tolist()
    else:
        mesh["shift"] = (L * Q @ shift + b).tolist()
    mesh["perm"] = t["perm"]
    o["mesh"] = mesh
    o["inner"] = vector(s["inner"], Q, b, L, m / L**2, scalar)
    o["outer"] = vector(s["outer"], Q, b, L, m / L, scalar)
    for k in ("mu", "la", "th", "ze"):
        if k in s:
            o[k] = m * s[k]
    if kind == "wave":
        o["prop"] = float(np.sqrt(m)) * s["prop"]
    if s.get("law"):
        lw = dict(s["law"])
        k = m / L
        if lw["law"] == "interior":
            k = m / L**2  # weighted by areas
        for q in ("p", "fr", "beta"):
            if q in lw:
                lw[q] = k * lw[q]
        o["law"] = lw
    if s.get("c"):
        o["c"] = affine(s["c"], Q, b, L)
    if s.get("pc"):
        o["pc"] = affine(s["pc"], Q, b, L)
    for k in ("u0", "v0", "b0"):
        if s.get(k):
            o[k] = field(s[k], Q, b, L, scalar)
    for k in ("t0", "p0"):
        if s.get(k):
            c = affine([s[k]["c"], s[k]["g"]], Q, b, L)
            o[k] = {"c": c[0], "g": c[1], "w": 0.0}
    for k, order in TENSORS.items():
        if s.get(k) is not None:
            T = np.array(s[k], dtype=float)
            T = np.einsum("ia,jb,ab->ij", Q, Q, T) if order == 2 else np.einsum("ia,jb,kc,abc->ijk", Q, Q, Q, T)
            o[k] = T.tolist()
    if kind == "temperature":  # gradients scale with 1/L, the heat content with L^2
        o["expansion"] = (L * np.array(o["expansion"])).tolist()
        o["conductivity"] = (L * L * np.array(o["conductivity"])).tolist()
    if kind.startswith("piezo"):
        o["piezo"] = (np.sqrt(m) * np.array(o["piezo"])).tolist()
        o["permittivity"] = (np.array(o["permittivity"])).tolist()
        if o.get("pc"):
            o["pc"] = [np.sqrt(m) * o["pc"][0], (np.sqrt(m) * np.array(o["pc"][1])).tolist()]
        if o.get("p0"):
            o["p0"] = {"c": np.sqrt(m) * o["p0"]["c"], "g": (np.sqrt(m) * np.array(o["p0"]["g"])).tolist(), "w": 0.0}
    if s.get("relax"):
        o["relax"] = dict(s["relax"], base=(m * np.array(s["relax"]["base"])).tolist())
    if s.get("value"):
        c = affine([s["value"]["c"], s["value"]["g"]], Q, b, L)
        o["value"] = {"c": c[0], "g": c[1]}
    return o


# ------------------------------------------------------------------------------ running both
def solve(s):
    c = sut.C()
    if s["kind"] == "static":
        sc = scen.Scenario(s)
        solver = c.ps.StaticSolver(sut.static_problem(sc.descr, sc.bnd, s["mu"], s["la"], sc.law, sc.inner, sc.outer), s["method"])
        sc.bind(solver.body.mesh)
        states = [c13.quiet(solver.solve, initial_displacement=lambda x: np.zeros_like(x), method="BFGS")]
    elif s["kind"] == "poisson":
        sc = scen.Scenario(s)
        bnd = c.BoundariesDescription(dirichlet=(sc.is_dirichlet, lambda x: s["value"]["c"] + np.asarray(x) @ np.array(s["value"]["g"])))
        solver = c.ps.PoissonSolver(sut.poisson_problem(sc.descr, bnd, lambda x, t=None: sc.f_in(x), lambda x, t=None: sc.f_out(x)), "direct")
        sc.bind(solver.body.mesh)
        states = [c13.quiet(solver.solve)]
    else:
        sc = evo.Evo(s)
        solver = sc.make_solver()
        if s["kind"] in evo.COUPLED:
            sc.bind2()
            if len(sc.dn2) in (0, len(sc.X)) or sc.contraction() > 0.3:
                raise Skip("staggered iteration contracts slowly")
        states = sc.run(solver, s["n"])
    return sc, solver, [c13.prints(x) for x in states]


def run(case, mon):
    s, t = case["s"], case["t"]
    Q, b, L = np.array(t["Q"]), np.array(t["b"]), t["L"]
    o = transform(s, t)
    sc, solver, one = solve(s)
    sc2, solver2, two = solve(o)
    mon.seen(f"move-{t['move']}")
    if not 0.01 < L < 100:
        mon.seen("size-by-orders")
    mon.seen(f"kind-{s['kind']}")
    mon.seen(s["method"])
    if s.get("d") == 3:
        mon.seen(f"{s['kind']}-3d")
    X, Y = sc.X, sc2.X
    dist, at = cKDTree(Y).query(L * X @ Q.T + b)
    if not mon.check("same-mesh", len(X) == len(Y) and dist.max() < 1e-8 * (1 + np.abs(Y).max()) and len(set(at.tolist())) == len(X), f"{t['move']}: nodes do not correspond"):
        return
    tag = f"{s['kind']} {t['move']} {s['method']} {(s.get('law') or {}).get('law')}"
    m1, m2 = solver.body.mesh, solver2.body.mesh
    mon.check("contact-set", {frozenset(at[fc].tolist()) for fc in np.array(m1.contact_boundary)} == {frozenset(fc.tolist()) for fc in np.array(m2.contact_boundary)}, f"{tag}: other contact faces")
    mon.check("contact-set", set(at[np.arange(m1.contact_nodes_count)].tolist()) == set(range(m2.contact_nodes_count)), f"{tag}: other contact nodes")
    if s.get("d", 2) == 2 and len(m1.contact_boundary):
        face = {frozenset(fc.tolist()): k for k, fc in enumerate(np.array(m2.contact_boundary))}
        n1, n2 = np.array(m1.boundaries.contact_normals), np.array(m2.boundaries.contact_normals)
        order = [face.get(frozenset(at[fc].tolist())) for fc in np.array(m1.contact_boundary)]
        if None not in order:
            mon.close("normals", n2[order], n1 @ Q.T, 1e-8, 1.0, f"{tag}: normals do not turn with the body")
    tol = TOL.get(s["kind"], 5e-3)
    if s["kind"] in evo.COUPLED:
        tol = 2e-2
    scalar = s.get("fd") == 1
    phi = np.sqrt(t["m"]) if s["kind"].startswith("piezo") else 1.0
    for k, (p, q) in enumerate(zip(one, two)):
        for name in ("displacement", "velocity", "absement"):
            want = p[name] if scalar else p[name] @ Q.T
            mon.close(f"fields-{s['kind']}", q[name][at], want, tol, np.abs(want).max() + 1e-4, f"{tag}: {name} of output {k}")
        if s["kind"] != "poisson":
            want = (L * X @ Q.T + b) + (p["displacement"] if scalar else p["displacement"] @ Q.T)
            if not scalar:
                mon.close("moved-nodes", q["displaced_nodes"][at], want, 2 * tol, np.abs(p["displacement"]).max() + 1e-4, f"{tag}: moved nodes of output {k}")
        for name, factor in (("temperature", 1.0), ("electric_potential", phi)):
            if p[name] is not None and q[name] is not None:
                want = factor * p[name]
                mon.close(f"scalar-{s['kind']}", np.ravel(q[name])[at], np.ravel(want), tol, np.abs(want).max() + 1e-4, f"{tag}: {name} of output {k}")
    last = one[-1]
    if s["kind"] != "poisson":
        u = last["displacement"]
        g = float((s.get("law") or {}).get("g", 0.0))
        on = sum(float((u[v] @ nrm) if not scalar else u[v, 0] * 1.0) > g for fc, nrm in zip(sc.contact_faces, sc.normals) for v in fc)
        mon.seen("contact-active", on)
    else:
        u = last["temperature"]
    if np.abs(u).max() > 1e-7:
        mon.nontrivial(u)
