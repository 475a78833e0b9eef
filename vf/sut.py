"""Adapters: build problems for the code under test from JSON-able specs (public API only)."""
import os
import sys

import numpy as np

from vf import gen, meshes

_IMPORTED = {}


def C():
    """Lazily imported names of the code under test."""
    if _IMPORTED:
        return _IMPORTED["ns"]
    import types

    from vf.core import REPO

    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from conmech.dynamics.contact import contact_law as cl
    from conmech.dynamics.contact.interior_contact_law import InteriorContactLaw
    from conmech.mesh.boundaries_description import BoundariesDescription
    from conmech.mesh.mesh import Mesh
    from conmech.mesh.zoo.raw_mesh import RawMesh
    from conmech.properties import mesh_description as md
    from conmech.scenarios import problems as pr
    from conmech.simulations import problem_solver as ps
    from conmech.state import state as st

    ns = types.SimpleNamespace(
        cl=cl,
        InteriorContactLaw=InteriorContactLaw,
        BoundariesDescription=BoundariesDescription,
        Mesh=Mesh,
        RawMesh=RawMesh,
        md=md,
        pr=pr,
        ps=ps,
        st=st,
    )
    import conmech

    path = list(getattr(conmech, "__path__", [os.path.dirname(conmech.__file__ or "")]))
    assert any(os.path.realpath(p).startswith(os.path.realpath(REPO)) for p in path), path
    _IMPORTED["ns"] = ns
    return ns


# ------------------------------------------------------------------------------ meshes
def raw_descr(nodes, elements, initial_position=None, share=False):
    """share: hand out the user's own arrays at every build"""
    c = C()

    class Given(c.md.MeshDescription):
        def build(self):
            if share:
                return c.RawMesh(nodes=nodes, elements=elements)
            return c.RawMesh(nodes=nodes.copy(), elements=elements.copy())

    given = Given(initial_position=initial_position)
    given.given = (nodes, elements)
    return given


def descr(spec, share=False):
    """mesh spec -> (MeshDescription, nodes, elements); nodes/elements None for zoo meshes"""
    c = C()
    if spec["shape"] == "CrossMesh":
        return (
            c.md.CrossMeshDescription(
                initial_position=spec.get("pos"),
                max_element_perimeter=spec["h"],
                scale=list(spec["scale"]),
            ),
            None,
            None,
        )
    nodes, elements = meshes.build(spec)
    return raw_descr(nodes, elements, spec.get("pos"), share), nodes, elements


def to_unit(spec):
    """map from physical coordinates back to the reference box of the mesh spec"""
    if spec["shape"] == "CrossMesh":
        sc = np.array(spec["scale"], dtype=float)
        pos = np.array(spec.get("pos") or np.zeros(len(sc)), dtype=float)
        return lambda x: (x - pos) / sc
    d = 3 if spec["shape"] in gen.SHAPES3 else 2
    size = np.array(
        spec.get("size", (1, 1, 1)) if d == 3 else (spec.get("lx", 1.0), spec.get("ly", 1.0)),
        dtype=float,
    ) * float(spec.get("scale") or 1.0)
    aff = np.array(spec["affine"], dtype=float) if spec.get("affine") is not None else np.eye(d)
    inv = np.linalg.inv(aff)
    shift = np.array(spec["shift"], dtype=float) if spec.get("shift") is not None else np.zeros(d)
    if spec.get("pos") is not None:  # moved by the initial position
        shift = shift + np.array(spec["pos_by"], dtype=float)
    return lambda x: (inv @ (np.asarray(x) - shift)) / size


EPS = 1e-9
SIDES = {
    "left": (0, 0.0),
    "right": (0, 1.0),
    "bottom": (1, 0.0),
    "top": (1, 1.0),
    "back": (2, 0.0),
    "front": (2, 1.0),
}


def region(text, unit=lambda x: x):
    """'bottom', 'left|right', 'bottom:0.25:0.75' (range of the next axis), 'none', 'all'"""
    if callable(text):
        return text
    if text in (None, "none"):
        return lambda x: False
    if text == "all":
        return lambda x: True
    parts = []
    for p in text.split("|"):
        bits = p.split(":")
        axis, at = SIDES[bits[0]]
        rng = (float(bits[1]), float(bits[2])) if len(bits) == 3 else None
        parts.append((axis, at, rng))

    def indicator(x):
        y = unit(x)
        for axis, at, rng in parts:
            if abs(y[axis] - at) < EPS:
                if rng is None:
                    return True
                o = y[(axis + 1) % 2 if len(y) == 2 else (axis + 1) % 3]
                if rng[0] - EPS <= o <= rng[1] + EPS:
                    return True
        return False

    return indicator


def boundaries(spec, unit, **conditions):
    """spec {'contact': region, 'dirichlet': region, ...}; conditions name -> f(nodes)->values"""
    kw = {}
    for name, text in spec.items():
        ind = region(text, unit)
        if name in conditions:
            kw[name] = (ind, conditions[name])
        else:
            kw[name] = ind
    return C().BoundariesDescription(**kw)


# ------------------------------------------------------------------------------ laws
def law(spec):
    """Contact laws as a user would write them.  All are numba-friendly closures."""
    c = C()
    kind = spec["law"]
    base = (c.cl.DirectContactLaw, c.cl.PotentialOfContactLaw)
    p = float(spec.get("p", 1.0))
    g = float(spec.get("g", 0.0))
    fr = float(spec.get("fr", 0.0))
    eps = float(spec.get("eps", 0.05))
    if kind == "slope":
        from conmech.dynamics.contact.relu_slope_contact_law import make_slope_contact_law

        return make_slope_contact_law(slope=p)
    if kind == "dnc":
        from conmech.dynamics.contact.damped_normal_compliance import make_damped_norm_compl

        return make_damped_norm_compl(
            obstacle_level=float(spec["level"]),
            kappa=p,
            beta=float(spec["beta"]),
            interior=bool(spec.get("interior")),
        )
    if kind == "gap":  # spring beyond a gap

        class Gap(*base):
            @staticmethod
            def potential_normal_direction(var_nu, static_displacement_nu, dt):
                if var_nu <= g:
                    return 0.0
                return 0.5 * p * (var_nu - g) ** 2

            @staticmethod
            def subderivative_normal_direction(var_nu, static_displacement_nu, dt):
                if var_nu <= g:
                    return 0.0
                return p * (var_nu - g)

        return Gap
    if kind == "cubic":

        class Cubic(*base):
            @staticmethod
            def potential_normal_direction(var_nu, static_displacement_nu, dt):
                if var_nu <= g:
                    return 0.0
                return p * (var_nu - g) ** 3 / 3

            @staticmethod
            def subderivative_normal_direction(var_nu, static_displacement_nu, dt):
                if var_nu <= g:
                    return 0.0
                return p * (var_nu - g) ** 2

        return Cubic
    if kind == "adhesive":  # two-sided linear response

        class Adhesive(*base):
            @staticmethod
            def potential_normal_direction(var_nu, static_displacement_nu, dt):
                return 0.5 * p * (var_nu - g) ** 2

            @staticmethod
            def subderivative_normal_direction(var_nu, static_displacement_nu, dt):
                return p * (var_nu - g)

        return Adhesive
    if kind == "friction":  # regularised friction with bounds

        class Friction(c.cl.PotentialOfContactLaw):
            @staticmethod
            def normal_bound(var_nu, static_displacement_nu, dt):
                return 2.0

            @staticmethod
            def tangential_bound(var_nu, static_displacement_nu, dt):
                return fr

            @staticmethod
            def potential_normal_direction(var_nu, static_displacement_nu, dt):
                if var_nu <= g:
                    return 0.0
                return 0.5 * p * (var_nu - g) ** 2

            @staticmethod
            def potential_tangential_direction(var_tau, static_displacement_tau, dt):
                return np.sqrt(np.sum(var_tau * var_tau) + eps * eps)

        return Friction
    if kind == "evolving":  # response and friction driven by the accumulated displacement

        class Evolving(c.cl.PotentialOfContactLaw):
            @staticmethod
            def tangential_bound(var_nu, static_displacement_nu, dt):
                if static_displacement_nu <= 0:
                    return 0.1 * fr
                return 0.1 * fr + fr * static_displacement_nu

            @staticmethod
            def potential_normal_direction(var_nu, static_displacement_nu, dt):
                u = static_displacement_nu + dt * var_nu
                if u <= g:
                    return 0.0
                return 0.5 * p * (u - g) ** 2 / (dt + 1e-12)

            @staticmethod
            def potential_tangential_direction(var_tau, static_displacement_tau, dt):
                s = static_displacement_tau + dt * var_tau
                return np.sqrt(np.sum(var_tau * var_tau) + eps * eps) + 0.5 * np.sum(s * s)

        return Evolving
    if kind == "exchange":  # of a scalar field, stronger where the body is pushed out

        class Exchange(c.cl.PotentialOfContactLaw):
            @staticmethod
            def potential_normal_direction(var_nu, static_displacement_nu, dt):
                return 0.5 * p * (1.1 + np.tanh(12.0 * static_displacement_nu)) * (1 + dt) * (var_nu - g) ** 2

        return Exchange
    if kind == "interior":  # obstacle met by the inside of a membrane
        beta = float(spec.get("beta", 0.0))

        class Obstacle(c.InteriorContactLaw):
            @staticmethod
            def potential_normal_direction(var_nu, static_displacement_nu, dt):
                u = static_displacement_nu + dt * var_nu
                if u <= g:
                    return 0.0
                return 0.5 * p * (u - g) ** 2 / dt + beta * (u - g) ** 3 / dt

        return Obstacle
    if kind == "none":

        class Nothing(*base):
            @staticmethod
            def potential_normal_direction(var_nu, static_displacement_nu, dt):
                return 0.0

            @staticmethod
            def subderivative_normal_direction(var_nu, static_displacement_nu, dt):
                return 0.0

        return Nothing
    raise ValueError(kind)


# ------------------------------------------------------------------------------ problems
def vec_field(spec, d):
    """load spec -> f(x, t): {'const': [...], 'lin': [[...]], 'amp': 'one'|'t'|'sin'|'step'}"""
    const = np.array(spec.get("const", [0.0] * d), dtype=float)
    lin = np.array(spec["lin"], dtype=float) if spec.get("lin") is not None else None
    amp = spec.get("amp", "one")
    om = float(spec.get("om", 3.0))

    def amplitude(t):
        t = 0.0 if t is None else float(t)
        if amp == "one":
            return 1.0
        if amp == "t":
            return 0.3 + t
        if amp == "sin":
            return float(np.sin(om * t) + 0.5)
        if amp == "step":
            return 1.0 if t < 0.15 else -0.7
        if amp == "late":  # nothing at first
            return 0.0 if t < spec.get("after", 0.035) else 1.0
        if amp == "tail":
            return float(np.cos(om * t))
        raise ValueError(amp)

    def field(x, t=None):
        v = const.copy()
        if lin is not None:
            v = v + lin @ x
        return v * amplitude(t)

    return field


def problem_class(base, attrs, inner=None, outer=None, names=("inner_forces", "outer_forces")):
    ns = dict(attrs)
    ns["__module__"] = __name__
    if inner is not None:
        ns[names[0]] = staticmethod(inner)
    if outer is not None:
        ns[names[1]] = staticmethod(outer)
    return type("Given" + base.__name__, (base,), ns)


def static_problem(mesh_descr, bnd, mu, la, law_, inner=None, outer=None):
    cls = problem_class(C().pr.StaticDisplacementProblem, {}, inner, outer)
    return cls(mesh_descr=mesh_descr, boundaries=bnd, mu_coef=mu, la_coef=la, contact_law=law_)


def evolution_problem(kind, mesh_descr, bnd, mu, la, th, ze, dt, law_, inner, outer, **extra):
    pr = C().pr
    base = {
        "quasistatic": pr.QuasistaticDisplacementProblem,
        "dynamic": pr.DynamicDisplacementProblem,
        "relaxation": pr.RelaxationQuasistaticProblem,
        "temperature": pr.TemperatureDynamicProblem,
        "piezo_quasistatic": pr.PiezoelectricQuasistaticProblem,
        "piezo_dynamic": pr.PiezoelectricDynamicProblem,
    }[kind]
    attrs = {"th_coef": th, "ze_coef": ze, "time_step": dt}
    attrs.update({k: (staticmethod(v) if callable(v) and not isinstance(v, type) else v) for k, v in extra.items()})
    cls = problem_class(base, attrs, inner, outer)
    return cls(mesh_descr=mesh_descr, boundaries=bnd, mu_coef=mu, la_coef=la, contact_law=law_)


def wave_problem(mesh_descr, bnd, propagation, dt, law_, inner, outer, interior=False):
    pr = C().pr
    if law_ is None:
        base = pr.WaveProblem
    elif interior:
        base = pr.InteriorContactWaveProblem
    else:
        base = pr.ContactWaveProblem
    cls = problem_class(base, {"time_step": dt}, inner, outer)
    kw = {} if law_ is None else {"contact_law": law_}
    return cls(mesh_descr=mesh_descr, boundaries=bnd, propagation=propagation, **kw)


def poisson_problem(mesh_descr, bnd, inner, outer):
    cls = problem_class(
        C().pr.PoissonProblem, {}, inner, outer, ("internal_temperature", "outer_temperature")
    )
    return cls(mesh_descr=mesh_descr, boundaries=bnd)


# ------------------------------------------------------------------------------ observations
def data(op):
    """operators are matrices or wrappers with .data"""
    if isinstance(op, np.ndarray):
        return op
    d = getattr(op, "data", None)
    return d if isinstance(d, np.ndarray) else np.asarray(op)
