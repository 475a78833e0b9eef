"""shared helpers of the demonstrations"""
import contextlib
import io
import os
import sys
import warnings

os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/tmp/mpl-demo")
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import numpy as np

from conmech.dynamics.contact.contact_law import DirectContactLaw, PotentialOfContactLaw
from conmech.dynamics.contact.relu_slope_contact_law import make_slope_contact_law
from conmech.mesh.boundaries_description import BoundariesDescription
from conmech.mesh.mesh import Mesh
from conmech.mesh.zoo.raw_mesh import RawMesh
from conmech.properties.mesh_description import MeshDescription
from conmech.scenarios import problems as pr
from conmech.simulations import problem_solver as ps


def grid(n, m, lx=1.0, ly=1.0):
    """nodes and triangles of a rectangle"""
    nodes = np.array([[lx * i / n, ly * j / m] for j in range(m + 1) for i in range(n + 1)])
    els = []
    for j in range(m):
        for i in range(n):
            a = j * (n + 1) + i
            els += [[a, a + 1, a + n + 2], [a, a + n + 2, a + n + 1]]
    return nodes, np.array(els, dtype=np.int64)


def descr(nodes, elements):
    class Given(MeshDescription):
        def build(self):
            return RawMesh(nodes=nodes.copy(), elements=elements.copy())

    return Given(initial_position=None)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        r = f(*a, **k)
        return r if not hasattr(r, "__next__") else list(r)


def zeros(x):
    return np.zeros_like(x)


def make(base, **attrs):
    return type("Demo" + base.__name__, (base,), attrs)


def expect(ok, message):
    if not ok:
        print("FAILED:", message)
        sys.exit(1)
    print("ok:", message)
