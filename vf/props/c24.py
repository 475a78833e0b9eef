"""Drawings: the artists put on the axes are compared with the state that was drawn."""
import contextlib
import io
import os
import shutil
import tempfile
import warnings

import numpy as np

from vf import gen, ref, sut
from vf.gen import f, rng_of

RULE = (
    "random meshes, boundary parts, displacements, times, fields, loads changing with place and time, stresses, windows, colours, drawings of "
    "several states on given axes; membranes over the unit square; limit point records from empty to thousands of entries; non-trivial "
    "when the drawn state is displaced"
)
REQUIRED = [
    "meshes", "boundaries", "plain-boundary", "window", "whole-body", "field-levels", "field-range", "colour-bar", "field-none", "loads", "loads-later",
    "clamps", "stress-arrows", "stress-current", "labels", "saved", "saved-other-current", "unchanged", "twice", "limit-points", "many-limit-points",
    "section", "surface", "odd-columns", "single",
]
ASSUMPTIONS = ["two dimensional bodies; membranes over the unit square", "the drawing back end is matplotlib with the Agg canvas"]
COLOURS = ["0.7", "k", "white", "purple", "#a0b0c0"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 15
    out = []
    for i in range(110 * k):
        rng = rng_of("C24", seed, i)
        mesh = gen.mesh2(rng, 4)
        dirich = str(rng.choice(["left", "left|top", "bottom:0:0.5", "none", "right"]))
        contact = str(rng.choice(["bottom", "top", "right|bottom", "none", "top:0.3:1"]))
        if mesh["shape"] in ("single", "tet"):
            dirich, contact = "bottom", "none"
        out.append({"kind": "body", "mesh": mesh, "dirichlet": dirich, "contact": contact, "s": int(rng.integers(0, 2**31)), "save": int(i % 22 == 0), "w": 3})
    for i in range(16 * k):
        rng = rng_of("C24", seed, "limit", i)
        n = int(rng.choice([0, 1, 37, 400, 999, 1000, 1001, 2600]))
        out.append({"kind": "limit", "n": n, "per": int(rng.choice([1, 2, 3, 7, 130])), "s": int(rng.integers(0, 2**31)), "w": 1})
    for i in range(12 * k):
        rng = rng_of("C24", seed, "membrane", i)
        mesh = dict(gen.mesh2(rng, 5, shapes=["square"], wild=False))
        for q in ("lx", "ly", "scale", "affine", "shift", "pos", "pos_by"):
            mesh.pop(q, None)
        mode = ("columns", "columns", "columns", "single", "columns3d", "columns")[i % 6]
        out.append({"kind": "membrane", "mode": mode, "mesh": mesh, "count": int(rng.integers(1, 6)) if mode == "columns" else 2, "x": f(rng.uniform(0, 1), 3), "s": int(rng.integers(0, 2**31)), "w": 8})
    return out


def plt_():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    return plt


# ---------------------------------------------------------------------------------- reading
def rgba(c):
    import matplotlib.colors as mc

    return tuple(round(float(v), 6) for v in mc.to_rgba(c))


def is_contours(c):
    from matplotlib.contour import ContourSet

    return isinstance(c, ContourSet)


def segments(ax, skip=()):
    """colour -> [segments] of every straight line on the axes, whichever artist carries it"""
    from matplotlib.collections import LineCollection

    out = {}
    for c in ax.collections:
        if id(c) in skip or is_contours(c) or not isinstance(c, LineCollection):
            continue
        cols = c.get_edgecolor()
        for i, s in enumerate(c.get_segments()):
            col = tuple(round(float(v), 6) for v in cols[i % len(cols)])
            for a, b in zip(s[:-1], s[1:]):
                out.setdefault(col, []).append((a, b))
    for ln in ax.lines:
        xy = np.asarray(ln.get_xydata(), dtype=float)
        for a, b in zip(xy[:-1], xy[1:]):
            if np.isfinite(a).all() and np.isfinite(b).all():
                out.setdefault(rgba(ln.get_color()), []).append((a, b))
    return out


def norm_seg(segs, scale):
    key = lambda p: (int(round(p[0] / scale * 1e7)), int(round(p[1] / scale * 1e7)))
    return {tuple(sorted((key(a), key(b)))) for a, b in segs}


def near(got, want):
    """equality up to one unit of the last place of the rounded keys"""
    if got == want:
        return True
    if len(got) != len(want):
        return False
    g, w = np.array(sorted(got)).reshape(-1, 4), np.array(sorted(want)).reshape(-1, 4)
    if np.abs(g - w).max() <= 2:
        return True
    from scipy.spatial import cKDTree

    w2 = np.vstack([w, w[:, [2, 3, 0, 1]]])
    return bool(cKDTree(w2).query(g, p=np.inf)[0].max() <= 2 and cKDTree(np.vstack([g, g[:, [2, 3, 0, 1]]])).query(w, p=np.inf)[0].max() <= 2)


def quivers(ax):
    from matplotlib.quiver import Quiver

    return [q for q in ax.collections if isinstance(q, Quiver)]


def arrows(q):
    return np.column_stack([np.asarray(q.X).ravel(), np.asarray(q.Y).ravel(), np.ma.getdata(q.U).ravel(), np.ma.getdata(q.V).ravel()])


def same_rows(mon, name, got, want, detail):
    got, want = np.asarray(got, dtype=float).reshape(-1, 4), np.asarray(want, dtype=float).reshape(-1, 4)
    if not mon.check(name, got.shape == want.shape, f"{detail}: {len(got)} arrows, expected {len(want)}"):
        return
    if not len(got):
        return
    g, w = got[np.lexsort(np.round(got.T, 7))], want[np.lexsort(np.round(want.T, 7))]
    if np.allclose(g, w, rtol=1e-7, atol=1e-9):
        return
    from scipy.spatial import cKDTree

    size = np.abs(want).max(axis=0) + 1e-12
    worst = max(cKDTree(want / size).query(got / size)[0].max(), cKDTree(got / size).query(want / size)[0].max())
    mon.check(name, worst < 1e-7, f"{detail}: arrows differ by {worst:.2e} (relative)")


def snapshot(st):
    return [np.array(a, copy=True) for a in (st.displacement, st.velocity, st.displaced_nodes, st.absement, st.body.mesh.nodes, st.body.mesh.elements)] + [st.time]


def interpolate(X, E, values, pts, tol=1e-9):
    """linear interpolation at points; nan outside"""
    out = np.full(len(pts), np.nan)
    for e in E:
        A = np.column_stack([X[e[1]] - X[e[0]], X[e[2]] - X[e[0]]])
        if abs(np.linalg.det(A)) < 1e-300:
            continue
        lam = np.linalg.solve(A, (pts - X[e[0]]).T).T
        ok = (lam >= -tol).all(axis=1) & (lam.sum(axis=1) <= 1 + tol) & np.isnan(out)
        out[ok] = values[e[0]] + lam[ok] @ np.array([values[e[1]] - values[e[0]], values[e[2]] - values[e[0]]])
    return out


# ---------------------------------------------------------------------------------- bodies
def body(case, rng):
    c = sut.C()
    descr, _, _ = sut.descr(case["mesh"])
    unit = sut.to_unit(case["mesh"])
    ic, idr = sut.region(case["contact"], unit), sut.region(case["dirichlet"], unit)
    bnd = c.BoundariesDescription(contact=ic, dirichlet=idr)
    a, b = rng.normal(size=(2, 2)), rng.normal(size=2)

    def outer(x, t=None):
        return a @ np.asarray(x) + b * (1.0 + (t or 0.0))

    problem = sut.static_problem(descr, bnd, 2.0, 3.0, sut.law({"law": "slope"}), lambda x, t=None: np.zeros(2), outer)
    solver = c.ps.StaticSolver(problem, "direct")
    return solver, outer, ic, idr


def law(displacement, velocity, absement, setup, elements, nodes, time):
    n = len(nodes)
    out = np.zeros((n, 2, 2))
    out[:, 0, 0] = displacement[:, 0] + 0.25 * time
    out[:, 1, 1] = displacement[:, 1] - 2.0 * velocity[:, 0] + nodes[:, 1] + time
    out[:, 0, 1] = out[:, 1, 0] = absement[:, 0] + elements.shape[0]
    return out


def run(case, mon):
    os.environ.setdefault("MPLBACKEND", "Agg")
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        plt = plt_()
        try:
            {"body": run_body, "limit": run_limit, "membrane": run_membrane}[case["kind"]](case, mon, plt)
        finally:
            plt.close("all")


def displace(st, rng, time, big=False):
    X, E = np.array(st.body.mesh.nodes), np.array(st.body.mesh.elements)
    size = np.ptp(X, axis=0).max()
    fem = ref.Fem(X, E)
    u = rng.normal(size=X.shape) * size * (0.4 if big else 0.05)
    if not big:
        for _ in range(40):
            Y = X + u
            d0 = np.array([np.linalg.det(Y[e[1:]] - Y[e[0]]) for e in E])
            d1 = np.array([np.linalg.det(X[e[1:]] - X[e[0]]) for e in E])
            if (d0 / d1 > 0.2).all():
                break
            u *= 0.6
    st.set_velocity(rng.normal(size=2 * len(X)), time, update_displacement=False)
    st.set_displacement(u.T.ravel().copy(), time)
    return X, E, fem, size


def run_body(case, mon, plt):
    from conmech.helpers.config import Config
    from conmech.plotting.drawer import Drawer

    rng = np.random.default_rng(case["s"])
    solver, outer, ic, idr = body(case, rng)
    st = sut.C().st.State(solver.body)
    scratch = tempfile.mkdtemp(prefix="c24", dir=os.environ.get("VERIF_SCRATCH"))
    try:
        config = Config(show=False, outputs_path=scratch, output_dir="pics").init()
        for turn in range(2):
            time = float(rng.choice([0.0, 0.5, 1.75])) if turn == 0 else float(rng.uniform(2, 5))
            draw_once(case, mon, plt, Drawer, config, st, rng, outer, ic, idr, time, turn, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def draw_once(case, mon, plt, Drawer, config, st, rng, outer, ic, idr, time, turn, scratch):
    want_field = rng.random() < 0.5
    X, E, fem, size = displace(st, rng, time, big=not want_field and rng.random() < 0.5)
    Y = X + st.displacement
    mon.nontrivial(Y)
    stressed = rng.random() < 0.5
    if stressed:
        st.constitutive_law = law
        if turn or rng.random() < 0.5:
            _ = st.stress  # asked for before the state moves on
            st.set_velocity(rng.normal(size=2 * len(X)), time, update_displacement=False)
    faces = [fc for fc, _ in fem.boundary()]
    mids = [X[list(fc)].mean(axis=0) for fc in faces]
    contact = [fc for fc, m in zip(faces, mids) if ic(m)]
    dirich = [fc for fc, m in zip(faces, mids) if idr(m)]
    neumann = [fc for fc, m in zip(faces, mids) if not ic(m) and not idr(m)]

    dr = Drawer(state=st, config=config)
    plain = rng.random() < 0.35
    dr.colorful = not plain
    if rng.random() < 0.6:
        dr.original_mesh_color = [None, "0.7", "purple"][int(rng.integers(0, 3))]
        dr.deformed_mesh_color = [None, "#a0b0c0", "k"][int(rng.integers(0, 3))]
    if rng.random() < 0.3:
        dr.node_size = 0
    kw = {"show": False, "foundation": bool(rng.random() < 0.5)}
    values = None
    if want_field:
        values = rng.normal(size=len(X)) + X @ rng.normal(size=2) / size * 3
        how = int(rng.integers(0, 4))
        if how == 0:
            dr.field = values
        elif how == 1:
            st.temperature = values
            dr.field_name = "temperature"
        elif how == 2 and stressed:
            dr.field_name = str(rng.choice(["stress_x", "stress_y", "stress_norm"]))
            full = law(st.displacement, st.velocity, st.absement, None, E, X, st.time)
            values = {"stress_x": full[:, 0, 0], "stress_y": full[:, 1, 1], "stress_norm": np.sqrt((full**2).sum(axis=(1, 2)))}[dr.field_name]
        else:
            dr.field = values
        if rng.random() < 0.5:
            kw["field_min"], kw["field_max"] = float(values.min() - 0.5), float(values.max() + 0.25)
            if rng.random() < 0.5 and values.min() <= 0 <= values.max():
                kw["field_min" if rng.random() < 0.5 else "field_max"] = 0.0
        kw["colorbar"] = bool(rng.random() < 0.7)
    arrows_on = rng.random() < 0.6
    if arrows_on:
        dr.outer_forces_scale = f(rng.choice([0.5, 1.0, 3.0, 20.0]))
        dr.outer_forces_size = 5
    stress_on = stressed and rng.random() < 0.7
    if stress_on:
        dr.normal_stress_scale = f(rng.choice([1.0, 10.0]))
    window = rng.random() < 0.45
    if window:
        given_window = [(-0.5, 2.25, 0.125, 0.75), (0.0, 0.75, 0.0, 0.5), (-1.0, 0.0, -2.0, 0.0), (0.25, 0.5, 0.0, 3.0)][int(rng.integers(0, 4))]
        which = [bool(rng.random() < 0.75) for _ in range(4)]
        for q, name in enumerate(("x_min", "x_max", "y_min", "y_max")):
            if which[q]:
                setattr(dr, name, given_window[q])
    labelled = rng.random() < 0.4
    if labelled:
        dr.xlabel, dr.ylabel = "first", "second"
    before = snapshot(st)
    save = case["save"] and turn == 0
    given = rng.random() < 0.6 or save
    other = None
    if given:
        fig, axs = plt.subplots(1, 2, figsize=(1.6, 0.8) if save else (6, 3))
        ax = axs[int(rng.integers(0, 2))]
        if rng.random() < 0.5 or save:
            other = plt.figure(figsize=(1, 1))
        kw["title"] = "the state"
        if save:
            drawn_fig = savefile(mon, plt, dr, fig, ax, kw, scratch, other, rng)
        else:
            r = dr.do_draw((fig, ax), **{k: v for k, v in kw.items() if k in ("title", "foundation", "colorbar", "field_min", "field_max")})
            mon.check("meshes", r[1] is ax and r[0] is fig, "the drawing is not on the given axes")
        mon.check("labels", ax.get_title() == "the state" and not any(a.get_title() for a in axs if a is not ax), f"title {[a.get_title() for a in axs]}")
    else:
        fig, ax = dr.do_draw(**{k: v for k, v in kw.items() if k in ("title", "foundation", "colorbar", "field_min", "field_max")})
    if labelled:
        mon.check("labels", (ax.get_xlabel(), ax.get_ylabel()) == ("first", "second"), f"labels {ax.get_xlabel()} {ax.get_ylabel()}")

    # lines
    want = {}

    def add(colour, nodes, pairs):
        if colour is not None:
            want.setdefault(rgba(colour), []).extend((nodes[i], nodes[j]) for i, j in pairs)

    edges = {tuple(sorted((int(e[i]), int(e[j])))) for e in E for i, j in ((0, 1), (0, 2), (1, 2))}
    add(dr.original_mesh_color, X, edges)
    add(dr.deformed_mesh_color, Y, edges)
    if plain:
        add("black", Y, faces)
        mon.seen("plain-boundary")
    else:
        add("b", Y, contact)
        add("r", Y, dirich)
        add("g", Y, neumann)
    got = segments(ax)
    names = {rgba("b"): "contact", rgba("r"): "Dirichlet", rgba("g"): "Neumann"}
    for col in set(want) | set(got):
        g, w = norm_seg(got.get(col, []), size), norm_seg(want.get(col, []), size)
        mon.check("boundaries" if col in names else "meshes", near(g, w), f"{names.get(col, col)} lines: {len(g)} drawn, {len(w)} expected, {len(g & w)} in common")

    # axes
    (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    P = np.vstack([X, Y])
    if window:
        a0, a1, b0, b1 = [given_window[q] if which[q] else v for q, v in enumerate((P[:, 0].min(), P[:, 0].max(), P[:, 1].min(), P[:, 1].max()))]
        m = np.array([0.2 * (a1 - a0), 0.2 * (b1 - b0)])
        wide = sorted((a0 - m[0], a1 + m[0])) + sorted((b0 - m[1], b1 + m[1]))
        if min(a1 - a0, b1 - b0) > 1e-6:
            mon.close("window", np.array([x0, x1, y0, y1]), np.array(wide), 1e-9, 1.0 + np.abs(P).max())
    else:
        mon.check("whole-body", (P[:, 0] >= x0).all() and (P[:, 0] <= x1).all() and (P[:, 1] >= y0).all() and (P[:, 1] <= y1).all(), f"axes {x0:.4g}..{x1:.4g}, {y0:.4g}..{y1:.4g}")

    # field
    sets = [c for c in ax.collections if is_contours(c) and c.filled]
    if values is None:
        mon.check("field-none", not sets, "a field is drawn though none was asked for")
    elif mon.check("field-levels", len(sets) == 1, f"{len(sets)} filled contours"):
        judge_field(mon, plt, fig, ax, sets[0], X + before[0], E, values, kw, rng)

    # arrows
    qs = quivers(ax)
    expected = []
    if plain:
        nodes = sorted({v for fc in dirich for v in fc})
        if nodes:
            expected.append(("clamps", np.column_stack([Y[nodes], np.tile([1.0, 0.0], (len(nodes), 1))]), None))
        mon.seen("clamps")
    if arrows_on:
        nodes = sorted({v for fc in neumann for v in fc})
        if nodes:
            expected.append(("loads", np.column_stack([Y[nodes], [outer(X[v], st.time) for v in nodes]]), dr.outer_forces_scale))
            if turn:
                mon.seen("loads-later")
    if stress_on:
        nodes = sorted({v for fc in contact for v in fc})
        full = law(st.displacement, st.velocity, st.absement, None, E, X, st.time)
        mon.close("stress-current", st.stress, full, 1e-12, 1 + np.abs(full).max())
        if nodes:
            expected.append(("stress-arrows", np.column_stack([Y[nodes], np.zeros(len(nodes)), -full[nodes, 1, 1]]), dr.normal_stress_scale))
    mon.check("arrow-sets", len(qs) == len(expected), f"{len(qs)} sets of arrows, expected {[e[0] for e in expected]}")
    if len(qs) == len(expected):
        for q, (name, rows, scale) in zip(qs, expected):
            same_rows(mon, name, arrows(q), rows, name)
            if scale is not None:
                mon.check(name, q.scale is not None and abs(float(q.scale) - scale) <= 1e-12 * scale, f"scale {q.scale} for {scale}")
    after = snapshot(st)
    mon.check("unchanged", all(np.array_equal(a, b) for a, b in zip(before, after)), "drawing changed the state")
    # the same picture again
    if rng.random() < 0.3:
        _, ax2 = dr.do_draw(plt.subplots(), **{k: v for k, v in kw.items() if k in ("foundation", "colorbar", "field_min", "field_max")})
        again = segments(ax2)
        ok = set(again) == set(got) and all(near(norm_seg(again[c], size), norm_seg(got[c], size)) for c in got)
        mon.check("twice", ok and [arrows(q).tolist() for q in quivers(ax2)] == [arrows(q).tolist() for q in qs], "the second drawing differs from the first")
    plt.close("all")


def judge_field(mon, plt, fig, ax, cs, Y, E, values, kw, rng):
    lv = np.asarray(cs.levels, dtype=float)
    span = float(np.ptp(values)) or 1.0
    mon.check("field-range", lv[0] <= values.min() + 1e-9 * span and lv[-1] >= values.max() - 1e-9 * span, f"levels {lv[0]:.4g}..{lv[-1]:.4g} for values {values.min():.4g}..{values.max():.4g}")
    if "field_min" in kw:
        mon.close("field-range", np.array([cs.norm.vmin, cs.norm.vmax], dtype=float), np.array([kw["field_min"], kw["field_max"]]), 1e-12, 1 + np.abs(values).max(), "range given by the user")
    paths = cs.get_paths()
    step = np.diff(lv).min()
    missed = []
    judged = 0
    for _ in range(25):
        e = E[int(rng.integers(0, len(E)))]
        lam = rng.dirichlet([3, 3, 3])
        p, v = lam @ Y[e], float(lam @ values[e])
        k = int(np.searchsorted(lv, v)) - 1
        if not 0 <= k < len(lv) - 1 or min(v - lv[k], lv[k + 1] - v) < 0.05 * step:
            continue
        judged += 1
        if not paths[k].contains_point(p):
            missed.append((v, lv[k], lv[k + 1]))
    mon.seen("field-levels", judged)
    mon.check("field-levels", not missed, lambda: f"{len(missed)} of {judged} points are not filled with the level of their value, e.g. {missed[0]}")
    bars = [a for a in fig.axes if getattr(a, "_colorbar", None) is not None or a.get_label() == "<colorbar>"]
    if not kw.get("colorbar"):
        mon.check("colour-bar", not bars, "a colour bar nobody asked for")
        return
    if mon.check("colour-bar", len(bars) == 1, f"{len(bars)} colour bars"):
        a = bars[0]
        lim = sorted(a.get_xlim() if a.get_window_extent().width > a.get_window_extent().height else a.get_ylim())
        mon.close("colour-bar", np.array(lim), np.array([cs.norm.vmin, cs.norm.vmax], dtype=float), 1e-6, span, "ends of the colour bar against the colours of the field")


def savefile(mon, plt, dr, fig, ax, kw, scratch, other, rng):
    name = "shot"
    if other is not None:
        mon.seen("saved-other-current")
    dr.draw(fig_axes=(fig, ax), save=name, **kw)
    where = os.path.join(scratch, "pics", "shot.png")
    files = [os.path.relpath(os.path.join(r, x), scratch) for r, _, xs in os.walk(scratch) for x in xs]
    if mon.check("saved", files == ["pics/shot.png"], f"files {files}"):
        img = plt.imread(where)[:, :, :3]
        mon.check("saved", img.shape[0] > 50 and (img.std(axis=2) > 0.05).mean() + (img < 0.5).all(axis=2).mean() > 1e-4, "the saved picture is blank")


# ---------------------------------------------------------------------------------- membranes
def run_limit(case, mon, plt):
    from conmech.plotting.membrane import plot_limit_points

    rng = np.random.default_rng(case["s"])

    class Record:
        data = {}
        name = "limit points at 0.50"

    record = Record()
    record.data, t, left = {}, 0.0, case["n"]
    while left > 0:
        k = min(left, int(rng.integers(0, case["per"] + 1)))
        t += 0.01
        record.data[t] = tuple(float(v) for v in np.sort(rng.uniform(0.01, 0.99, k)))
        left -= k
    record.data[t + 0.01] = ()
    want = np.array([(a, z) for a, zs in record.data.items() for z in zs]).reshape(-1, 2)
    copy = dict(record.data)
    plt.figure()
    plot_limit_points(record, title="points", finish=False)
    ax = plt.gca()
    got = [np.asarray(c.get_offsets(), dtype=float).reshape(-1, 2) for c in ax.collections]
    got += [np.asarray(ln.get_xydata(), dtype=float) for ln in ax.lines]
    got = np.vstack(got) if got else np.zeros((0, 2))
    got = got[np.isfinite(got).all(axis=1)]
    mon.seen("limit-points")
    if len(want) > 1000:
        mon.seen("many-limit-points")
    mon.nontrivial(want)
    ok = len(got) == len(want) and np.allclose(got[np.lexsort(got.T)], want[np.lexsort(want.T)], atol=1e-12)
    mon.check("limit-points", ok, f"{len(got)} points drawn for {len(want)} recorded; {(np.abs(got).sum(axis=1) == 0).sum()} at the origin")
    mon.check("unchanged", copy == record.data, "the record was changed")
    mon.check("labels", ax.get_title() == "points", "title")
    mon.close("window", np.array(ax.get_ylim()), np.array([0.0, 1.0]), 1e-12, 1.0)


def run_membrane(case, mon, plt):
    from conmech.plotting import membrane

    rng = np.random.default_rng(case["s"])
    c = sut.C()
    descr, _, _ = sut.descr(case["mesh"])
    bnd = c.BoundariesDescription(dirichlet=lambda x: x[0] in (0, 1))
    problem = sut.static_problem(descr, bnd, 2.0, 3.0, sut.law({"law": "slope"}), lambda x, t=None: np.zeros(2), lambda x, t=None: np.zeros(2))
    solver = c.ps.StaticSolver(problem, "direct")
    states = []
    for i in range(case["count"]):
        st = c.st.State(solver.body)
        n = st.body.mesh.nodes_count
        st.set_velocity(rng.normal(size=2 * n), 0.1 * i, update_displacement=False)
        st.set_displacement(rng.normal(size=2 * n), 0.1 * i)
        states.append(st)
    X, E = np.array(states[0].body.mesh.nodes), np.array(states[0].body.mesh.elements)
    before = [snapshot(st) for st in states]
    three = case["mode"] != "columns"
    kw = dict(field="velocity", vmin=-3.0, vmax=3.0, zmin=-4.0, zmax=4.0, x=case["x"])
    if case["mode"] == "single":
        membrane.plot(states[0], in3d=True, **kw)
        states = states[:1]
        mon.seen("single")
    else:
        membrane.plot_in_columns(states, title="membrane", finish=False, in3d=three, **kw)
    fig = plt.gcf()
    axes = [a for a in fig.axes if (getattr(a, "name", "") == "3d") == three and a.get_label() != "<colorbar>" and (three or a.lines)]
    if not mon.check("section" if not three else "surface", len(axes) == len(states), f"{len(axes)} pictures for {len(states)} states"):
        return
    if len(states) % 2:
        mon.seen("odd-columns")
    for st, ax in zip(states, axes):
        u, v = st.displacement[:, 0], st.velocity[:, 0]
        mon.nontrivial(u)
        if three:
            surf = [q for q in ax.collections if hasattr(q, "_segslices")]
            if not mon.check("surface", len(surf) == 1, "surface missing"):
                continue
            q = surf[0]
            V = np.asarray(q._vec)[:3].T
            want = interpolate(X, E, u, V[:, :2])
            ok = np.isfinite(V).all(axis=1) & np.isfinite(want)
            mon.check("surface", ok.mean() > 0.9, f"only {ok.mean():.2f} of the surface is drawn")
            mon.close("surface", V[ok, 2], want[ok], 1e-7, 1 + np.abs(u).max())
            from matplotlib import colormaps
            from matplotlib.colors import Normalize

            tri = np.array([V[s] for s in q._segslices])
            cen = tri[:, :3].mean(axis=1)
            col = colormaps["coolwarm"](Normalize(-3.0, 3.0)(interpolate(X, E, v, cen[:, :2])))
            got = np.asarray(q._facecolor3d if hasattr(q, "_facecolor3d") else q.get_facecolor())
            fine = np.isfinite(interpolate(X, E, v, cen[:, :2])) & np.isfinite(cen).all(axis=1)
            if mon.check("surface", got.shape == col.shape, f"colours {got.shape} {col.shape}"):
                d = np.abs(got[fine] - col[fine]).max(axis=1)
                mon.check("surface", (d < 0.03).mean() > 0.98, f"{(d >= 0.03).mean():.3f} of the colours are not those of the field")
            mon.close("surface", np.array(ax.get_zlim()), np.array([-4.0, 4.0]), 1e-9, 1.0)
        else:
            xy = [np.asarray(ln.get_xydata(), dtype=float) for ln in ax.lines]
            if not mon.check("section", len(xy) == 1 and len(xy[0]) > 10, f"{len(xy)} lines"):
                continue
            y, val = xy[0][:, 0], xy[0][:, 1]
            want = interpolate(X, E, u, np.column_stack([np.full(len(y), case["x"]), y]))
            ok = np.isfinite(val) & np.isfinite(want)
            mon.check("section", ok.mean() > 0.9 and y.min() <= 1e-9 and y.max() >= 1 - 1e-9, "the section does not span the membrane")
            mon.close("section", val[ok], want[ok], 1e-9, 1 + np.abs(u).max())
            mon.close("window", np.array(ax.get_ylim()), np.array([-4.0, 4.0]), 1e-12, 1.0)
    mon.check("unchanged", all(np.array_equal(a, b) for st, s0 in zip(states, before) for a, b in zip(snapshot(st), s0)), "plotting changed a state")
