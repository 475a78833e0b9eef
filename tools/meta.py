"""Generates properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id_, title, statement, over, text, why, files, mechanism, observe, technique, note, hook=None, level="exploration"):
    assert len(title) <= 80, title
    P.append(
        {
            "p": {
                "id": id_,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {
                    "files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe,
                    "hook_needed": hook,
                },
            },
            "technique": technique,
            "level": level,
            "note": note,
        }
    )


SOLV = "conmech/simulations/problem_solver.py"
METH = "conmech/solvers/solver_methods.py"
STAT = "conmech/dynamics/statement.py"
OPT = "conmech/solvers/optimization/optimization.py"
SCH = "conmech/solvers/optimization/schur_complement.py"
GLO = "conmech/solvers/optimization/global_optimization.py"
DIR = "conmech/solvers/direct.py"
BASE = "conmech/solvers/solver.py"
BF = "conmech/mesh/boundaries_factory.py"
BD = "conmech/mesh/boundaries.py"
ST = "conmech/state/state.py"
F2 = "conmech/dynamics/factory/_dynamics_factory_2d.py"
F3 = "conmech/dynamics/factory/_dynamics_factory_3d.py"
FM = "conmech/dynamics/factory/dynamics_factory_method.py"
PR = "conmech/scenarios/problems.py"

prop("C01", "A built mesh is the described mesh",
     "The mesh a problem works on has exactly the described (or imported) nodes that belong to some element, moved by the initial position and by nothing else, and exactly the described simplices, whatever numbering is chosen internally. No element is lost, duplicated, distorted or rewired, nodes used by no element are dropped, and the reported edges are each edge of the mesh once.",
     ["inputs"], "every 2D/3D simplicial mesh given as arrays or as a file, any numbering, any unused nodes, any boundary predicates and initial position",
     "tests build a few fixed meshes and compare counts; renumbering errors need particular numberings, unused nodes and boundary sets",
     ["conmech/mesh/mesh.py", "conmech/mesh/mesh_builders.py", BF, "conmech/mesh/zoo/raw_mesh.py"],
     [("removal of unconnected nodes", "conmech/mesh/mesh.py"), ("boundary-first renumbering of nodes and elements", BF)],
     ["mesh.nodes, mesh.elements, mesh.edges after construction"],
     "runtime monitor: geometric bijection between described and built mesh",
     "held on the generated meshes; both interpreted and (few) bounds-checked compiled runs; inputs have pairwise distinct nodes")
prop("C02", "Boundary faces and nodes are classified as the user's predicates say",
     "Every boundary face is a contact, Dirichlet or Neumann face exactly as the user's predicates at its centre say, and no interior face is ever reported. Boundary nodes are contact, Dirichlet (which wins over contact) or Neumann as the predicates at the node say; nodes are ordered contact, Neumann, interior, Dirichlet and the published counts and index ranges select exactly those sets. Additionally named boundaries hold exactly the faces their predicate selects, the nodes of those faces and the values the user's function gives at them.",
     ["inputs"], "every mesh and every set of contact, Dirichlet and additionally named predicates, including empty, overlapping, touching and partial ones",
     "tests use unit squares with full sides; overlapping, empty and partial predicates and renumberings are not sampled",
     [BF, BD, "conmech/mesh/boundary.py", "conmech/mesh/boundaries_description.py"],
     [("identify_boundaries_and_reorder_nodes", BF), ("index ranges", "conmech/mesh/mesh.py")],
     ["mesh.boundaries, mesh.*_boundary, mesh.*_indices, mesh.*_nodes_count"],
     "runtime monitor: independent reclassification of every face and node",
     "held on the generated meshes and predicates; one recorded finding (3D faces claimed by two predicates)")
prop("C03", "Boundary normals are unit, perpendicular to their face and point outward",
     "Every boundary face of a 2D mesh has a normal of length one, perpendicular to the face and pointing out of the body; the normals handed to the contact computation belong to the contact faces in the same order. In 3D every normal is a unit vector perpendicular to its face up to orientation.",
     ["inputs"], "every mesh, numbering, orientation of elements and boundary partition",
     "tests check normals of one cross-shaped square mesh",
     [BD, BF], [("orientation by the inner vertex of each face", BD), ("sorting of inner vertices with their faces", BF)],
     ["mesh.boundaries.surface_normals, contact_normals"],
     "runtime monitor: geometric oracle on every face normal",
     "held on the generated meshes; 3D orientation is a recorded finding")
prop("C04", "Mesh generators cover the described domain with conforming simplices",
     "Every mesh description that the library can generate yields non-degenerate simplices that tile the described domain: total area or volume, extent and boundary are those of the domain, every interior face is shared by exactly two elements, and refining the description only refines the mesh.",
     ["inputs", "configurations"], "every generator (cross rectangle, cube, ball, circle, polygon, spline, rectangle, twisted prism, published geometries), size parameter, scale and position",
     "tests exercise a handful of sizes and assert counts for the cross mesh only",
     ["conmech/properties/mesh_description.py", "conmech/mesh/zoo/cross_for_tests.py", "conmech/mesh/zoo/cube.py", "conmech/mesh/zoo/ball.py"],
     [("generators", "conmech/mesh/zoo"), ("parameters", "conmech/properties/mesh_description.py")],
     ["nodes and elements of the generated mesh"],
     "runtime monitor: tiling, conformity and quality of generated meshes",
     "held on the generated parameters; generators whose third-party back end is absent here are not reached")
prop("C05", "Assembled operators are the exact finite element operators",
     "For every mesh and material, the stiffness, viscosity, mass, thermal, electric, relaxation and membrane operators of a body equal the Galerkin matrices of linear simplicial elements: rigid motions carry no elastic energy, affine deformations carry exactly their continuum energy, and total mass is density times volume. The result does not depend on element order, orientation or node numbering.",
     ["inputs"], "every 2D/3D simplicial mesh, material constant and tensor",
     "tests compare a few matrix entries on one fixed square/cube mesh, mostly with symmetric data that hides transposed or swapped coefficients",
     [F2, F3, FM, "conmech/dynamics/factory/_abstract_dynamics_factory.py", "conmech/struct/stiffness_matrix.py"],
     [("element integrals", F2), ("element integrals 3D", F3), ("operator composition", FM)],
     ["body.dynamics operators"],
     "runtime monitor: independent assembly and energy invariants",
     "held on the generated meshes and tensors to 1e-8 relative; compiled kernels run with bounds checking on a few cases")
prop("C06", "Updating the density rescales each element's stiffness and nothing else",
     "After a density update the solver of a two-dimensional static problem behaves like a fresh solver for a body whose elements have stiffness multiplied by their own density; the last update alone counts, unit density restores the original, and mass, loads, boundary values and mesh stay as they were.",
     ["inputs", "histories"], "every 2D mesh, density field and sequence of updates, solves and changes of method",
     "the test compares one mesh with two density fields and one update",
     ["conmech/dynamics/dynamics.py", SOLV], [("reinitialize_matrices with density", "conmech/dynamics/dynamics.py"), ("refresh_solvers", SOLV)],
     ["operators after update_density; solution of the next solve"],
     "runtime monitor: reference operator and minimiser after sequences of updates",
     "held on the generated update sequences")
prop("C07", "Loads enter the equations as the user's fields at the right place and time",
     "Body loads act through the volume of the elements and surface loads only through the Neumann part of the boundary, each with exactly the user's field evaluated at the nodes and at the time of the step: the resultant of a uniform load is its density times the volume (or the Neumann area), loads superpose, and a field that changes in time is never used at another time.",
     ["inputs", "histories"], "every mesh, boundary partition, load field in space and time, and sequence of queried times",
     "tests use constant loads on unit squares; cached values, time dependence and partial Neumann boundaries are not exercised",
     ["conmech/scene/body_forces.py", F2, F3, STAT], [("node_source cache", "conmech/scene/body_forces.py"), ("volume_at_nodes", F2), ("surface per boundary node", "conmech/scene/body_forces.py")],
     ["integrated load vector; calls of the user's force functions"],
     "runtime monitor: recording load callbacks and independent quadrature",
     "held on the generated meshes, fields and time sequences")
prop("C08", "Dirichlet nodes carry exactly the prescribed values in every result",
     "In every returned state, the unknown of the problem (displacement, velocity, temperature, electric potential) has at each Dirichlet node exactly the value the user's boundary function gives there, for every component it prescribes, whatever the initial guess, solver, time step or problem type; without a boundary function the value is zero.",
     ["inputs", "histories"], "every problem type, solving method, mesh numbering, boundary function and initial state",
     "tests use homogeneous conditions or one Poisson example; per-component values, gaps in the index set and non-zero initial guesses are not combined",
     [BASE, STAT, BD, BF], [("apply_dirichlet_condition", STAT), ("enforcement after solve", BASE), ("get_all_boundary_indices", BD)],
     ["states returned by solve()"],
     "runtime monitor: value check on every returned state across problem types",
     "held on the generated problems")
prop("C09", "A static solution is the equilibrium of the contact problem",
     "The displacement returned for a static contact problem minimises elastic energy minus work of the loads plus the contact energy of the user's law over the contact faces, among displacements with the prescribed boundary values: at every free node internal, external and contact forces balance within the optimiser's accuracy; the \"constrained\" method minimises among displacements whose second component is non-negative at the contact nodes. It holds for every law the optimiser can handle, mesh, load and material, in 2D and (without contact) in 3D.",
     ["inputs"], "every mesh, partition, convex contact law (response, gap, friction), loads, materials, initial guess",
     "tests compare six-digit displacement lists for three setups on a coarse square; other laws, partitions and meshes are not reached",
     [METH, OPT, SCH, GLO, DIR, STAT], [("cost functional", METH), ("equation", METH), ("Schur reduction", SCH), ("minimisation", OPT)],
     ["state.displacement returned by the static solver"],
     "runtime monitor: equilibrium residual and energy gap against an independent Newton minimiser",
     "held on the generated problems within calibrated optimiser accuracy")
prop("C10", "All solving methods and names give the same solution",
     "For the same problem every registered solving method (direct, global, Schur), every accepted spelling of its name and every initial guess (in any container and element type) gives the same solution within optimiser accuracy, and asking for an unknown method or a method the problem type does not have fails instead of silently using another.",
     ["inputs", "configurations"], "every static, quasistatic and dynamic problem with a convex law and every pair of methods",
     "tests compare each method with a stored vector on the same few setups",
     ["conmech/solvers/_solvers.py", DIR, SCH, GLO, OPT], [("SolversRegistry", "conmech/solvers/_solvers.py"), ("Schur reduction", SCH)],
     ["states returned for the same problem by different methods"],
     "runtime monitor: differential execution of the methods",
     "held on the generated problems within calibrated accuracy; method names read from the registry and documentation")
prop("C11", "Every quasistatic and dynamic step satisfies the discrete momentum balance",
     "Each step of a quasistatic or dynamic viscoelastic simulation maps the previous state to the velocity that balances inertia, viscosity, elasticity at the end of the step, loads at the beginning of the step and the contact law evaluated with the previous displacement, with the prescribed boundary values. This holds at every step of a run, not only at the first or the last, for both the Schur and the global method.",
     ["inputs", "histories"], "every mesh, material, time step, load history, contact law, number of steps and initial state",
     "tests look at one final state of a few runs; an error in one term at later steps or in time-varying loads stays below their tolerance or is baked into stored values",
     [STAT, SCH, GLO, SOLV, METH], [("right hand side per step", STAT), ("iterate()", SCH), ("iterate()", GLO), ("time loop", SOLV)],
     ["consecutive states of a run"],
     "runtime monitor: per-step trace checker against an independent minimiser",
     "held on every observed step of the generated runs within calibrated optimiser accuracy")
prop("C12", "States follow the kinematics, the clock and the requested output schedule",
     "A run returns one state per requested output step, each carrying the time of that step; displacement advances by time step times the new velocity (absement by time step times displacement), moved nodes are reference nodes plus displacement, and stress is recomputed from the current fields. Which steps are requested never changes the trajectory, and a returned state never changes afterwards.",
     ["inputs", "histories"], "every problem type, output schedule (also with repeated or zero steps), number of steps and later use of the solver",
     "tests read only the final displacement of one schedule",
     [ST, SOLV], [("set_velocity/set_displacement", ST), ("output loop", SOLV), ("copy", ST)],
     ["every returned state, re-read after later steps and runs"],
     "runtime monitor: trace specification over returned states, aliasing probes",
     "held on the generated runs")
prop("C13", "Saving, loading and resuming preserve the simulation, also when saving fails",
     "A saved state loads back with the same fields, mesh and products, also in another process, and a membrane run resumed from it continues as the uninterrupted run would. Saving changes nothing in the running simulation. A save that fails at any point leaves the simulation usable with its loads, and leaves behind no file that passes for a saved state without being one; when the state cannot be serialised, a previously saved file stays intact.",
     ["histories", "crash_points", "fault_sequences"], "every state, stop point, and failure point of the write",
     "the only test-like use is one example that pickles a finished state; failure points and resumption are not tested",
     [ST, SOLV], [("save/load", ST), ("resume through state=", SOLV)],
     ["file contents, loaded state, continued run, forces after a failed save"],
     "runtime monitor with fault injection at every pickling and write step",
     "held on the generated stop points and injected faults")
prop("C14", "Temperature and deformation are coupled by one consistent operator",
     "In thermoviscoelastic runs each step's velocity balances the mechanical terms (loads at the end of the step) plus the thermal stress of the new temperature, and each step's temperature balances heat capacity, conduction and the deformation heating by the new velocity, both with the user's tensors; without coupling the run equals the purely mechanical one and total heat is conserved in an insulated body.",
     ["inputs", "histories"], "every mesh, tensors, time step, initial temperature, loads and contact law",
     "one example's final vectors with one decimal of precision",
     [STAT, SOLV, F2, F3], [("coupled statements", STAT), ("find_solution_uzawa", SOLV)],
     ["consecutive states of a coupled run"],
     "runtime monitor: per-step residuals of both balances, conservation laws",
     "held on the generated runs; the staggered iteration's own convergence threshold bounds the accuracy")
prop("C15", "Electric potential and deformation are coupled by one consistent operator",
     "In piezoelectric runs (quasistatic and dynamic) each step's potential solves the electrostatic equation driven by the displacement reached in that step, with the prescribed potentials on its own boundary, and each step's velocity balances the mechanical terms (loads at the end of the step) plus the electric stress of that potential, both with the user's tensors; with a zero tensor the run equals the purely mechanical one.",
     ["inputs", "histories"], "every mesh, tensors, electrode layout, time step, loads and contact law",
     "one example's final vectors with one or two decimals of precision; the dynamic variant is not tested",
     [STAT, SOLV, F2, PR], [("coupled statements", STAT), ("find_solution_uzawa", SOLV), ("second Dirichlet condition", BF)],
     ["consecutive states of a coupled run"],
     "runtime monitor: per-step residuals of both balances",
     "held on the generated runs; the staggered iteration's own convergence threshold bounds the accuracy")
prop("C16", "Membranes follow the discrete wave equation with their obstacle",
     "Each step of a membrane run solves the implicit wave equation with the given propagation speed, the load and the obstacle response (on the boundary or in the interior) of the user's law, with the edge held at its prescribed value; only the transversal component moves.",
     ["inputs", "histories"], "every mesh, propagation, load, obstacle law, time step, initial state and number of steps",
     "tests compare final displacements of two setups to two or three decimals",
     [STAT, METH, SOLV, SCH], [("WaveStatement", STAT), ("interior obstacle functional", METH), ("driving vector", SCH)],
     ["consecutive states of a run"],
     "runtime monitor: per-step trace checker against an independent minimiser",
     "held on every observed step; the frozen right hand side of the direct method is a recorded finding")
prop("C17", "Bodies with relaxation respond to their whole history through the absement",
     "Each step of a relaxation run returns the displacement that balances elasticity, the relaxation tensor of that time applied to the accumulated absement, loads and contact, and the absement grows by time step times displacement; a tensor that varies in time is used at the right time by every method.",
     ["inputs", "histories"], "every mesh, tensor history, load history, law, time step and number of steps",
     "only an example script runs this solver, with a constant tensor",
     [STAT, SCH, GLO, SOLV, "conmech/dynamics/dynamics.py"], [("relaxation statement", STAT), ("relaxation operator cache", "conmech/dynamics/dynamics.py")],
     ["consecutive states of a run"],
     "runtime monitor: per-step trace checker against an independent minimiser",
     "held on every observed step of the generated runs")
prop("C18", "Poisson solutions satisfy the discrete equation and the maximum principle",
     "The temperature returned for a Poisson problem solves the discrete equation with the user's internal sources, Neumann fluxes and every prescribed boundary value; affine data is reproduced exactly, solutions superpose linearly in the data, and on non-obtuse meshes with no sources the values stay between the boundary values.",
     ["inputs"], "every mesh, boundary partition into several Dirichlet parts and Neumann parts, sources",
     "tests compare three stored vectors on one mesh",
     [STAT, SOLV, DIR, BD], [("StaticPoissonStatement", STAT), ("several Dirichlet conditions", STAT)],
     ["state.temperature returned by the solver"],
     "runtime monitor: residual oracle and metamorphic relations",
     "held on the generated problems")
prop("C19", "Library contact laws are consistent potential and response pairs",
     "For the supplied contact laws the response is the derivative of the potential wherever it exists, there is no response before the obstacle is reached, the response grows with the parameter and with penetration, compiled and interpreted evaluation agree, and evaluating a law is free of side effects and independent of laws made with other parameters.",
     ["inputs", "configurations"], "every parameter, argument and order of construction",
     "tests use two parameter choices inside whole simulations",
     ["conmech/dynamics/contact/relu_slope_contact_law.py", "conmech/dynamics/contact/damped_normal_compliance.py", "conmech/dynamics/contact/constant_constact_law.py", "conmech/dynamics/contact/contact_law.py"],
     [("law factories", "conmech/dynamics/contact")],
     ["values of the laws' functions"],
     "runtime monitor: finite-difference and sign oracles on law evaluations",
     "held on the sampled arguments and parameters")
prop("C20", "Recorded products tell what the run did",
     "Every product attached to a run holds one entry per step since it was attached, keyed by that step's time and computed from the state of that step (penetration, cross sections, contact limit points); copies returned with states are frozen, a time range keeps exactly the entries after its start up to its stop, and recording never changes the run.",
     ["inputs", "histories"], "every run, product, attach time, output schedule and range",
     "products are only used by example scripts",
     ["conmech/state/products/product.py", "conmech/state/products/penetration.py", "conmech/state/products/verticalintersection.py", "conmech/state/products/intersection_contact_limit_points.py", ST],
     [("update_products", ST), ("copy and range", "conmech/state/products/product.py")],
     ["product data of returned states against recomputation from the states"],
     "runtime monitor: recomputation of every entry from the observed states",
     "held on the generated runs")
prop("C21", "Runs are repeatable, isolated from each other and leave their inputs alone",
     "Solving the same problem again, with the same or a new solver object, after or between other simulations, compiled or interpreted, gives the same result; a solver never modifies the user's arrays, mesh description, boundary description or earlier results.",
     ["histories", "configurations"], "every interleaving of runs of several solvers, and every reuse of problem objects",
     "every test runs one solver once in a fresh problem",
     [SOLV, BASE, "conmech/scene/body_forces.py", ST], [("state kept by solvers between runs", BASE), ("load cache", "conmech/scene/body_forces.py")],
     ["results and inputs around interleaved runs"],
     "runtime monitor: history comparison against isolated runs, input fingerprints",
     "held on the generated histories")
prop("C22", "Results do not depend on numbering, position or orientation of the mesh",
     "Renumbering nodes and elements, permuting vertices inside elements, translating the body, rotating or mirroring it together with loads and normals, or scaling lengths and stiffness consistently, changes results exactly as physics says and in no other way.",
     ["inputs"], "every problem and every renumbering, rigid motion or scaling of it",
     "every stored expectation belongs to one numbering and one axis-aligned position",
     [BF, F2, F3, METH, BD], [("node reordering", BF), ("operators", F2), ("contact functional", METH)],
     ["pairs of runs on transformed problems"],
     "runtime monitor: metamorphic pairs of executions",
     "held on the generated pairs within calibrated accuracy")
prop("C23", "No run creates energy",
     "Without loads and with motionless supports, the total energy (kinetic, elastic, contact) of a dynamic or membrane run never grows from one step to the next beyond optimiser accuracy, and with loads it grows at most by their work; a body at rest in equilibrium stays at rest, and quasistatic dissipation is never negative.",
     ["inputs", "histories"], "every unloaded or loaded run, any initial state, material, law and step",
     "tests look at displacements after two to a hundred steps against stored values",
     [STAT, SOLV, METH, ST], [("implicit time stepping", STAT)],
     ["energies of consecutive states"],
     "runtime monitor: conservation and dissipation law over recorded traces",
     "held on every observed step of the generated runs")

prop("C24", "Drawings show the computed state",
     "A drawing of a 2D state shows that state and leaves it unchanged: the original mesh at the mesh's nodes and the deformed mesh at the displaced nodes, each in its colour; contact faces blue, Dirichlet faces red and Neumann faces green (or the whole boundary black and one clamp arrow at every Dirichlet node) in the deformed position; the chosen field (also the stress, which is always the constitutive law at the state's current fields and time) filled at every point with the level of its value there, on the range asked for, with a colour bar of the same range; one arrow per Neumann node with the load there at the state's time and one per contact node with the vertical stress. The axes show the whole body, or the requested window, with a fifth of its size as margin. Title, labels and saved file belong to the given axes and figure and the configured directory. Membrane plots show the membrane's section or surface for every state, and the limit point plot every recorded point once and nothing else.",
     ["inputs", "histories"], "every 2D state of every mesh and boundary partition, every drawing option and figure, any number of states and recorded points",
     "the tests run some examples with drawing switched off; nothing looks at what is drawn",
     ["conmech/plotting/drawer.py", "conmech/plotting/membrane.py", ST, "conmech/helpers/config.py"],
     [("Drawer.do_draw", "conmech/plotting/drawer.py"), ("plot_in_columns, plot_limit_points", "conmech/plotting/membrane.py"), ("lazily computed stress", ST)],
     ["the artists on the axes (lines, contours, arrows, points, surfaces), axes limits, files in the output directory"],
     "runtime monitor: artists on the axes compared with the state and an independent interpolation",
     "held on the drawings made; 2D bodies, membranes over the unit square")

CLAIMED = [x for x in open(os.path.join(HERE, "tools", "claimed.txt")).read().split()]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for e in P:
            f.write(json.dumps(e["p"], ensure_ascii=False) + "\n")
    checks, na = [], []
    for e in P:
        i = e["p"]["id"]
        if i in CLAIMED:
            checks.append(
                {
                    "property": i,
                    "quick_cmd": f"./check {i} --tier quick",
                    "thorough_cmd": f"./check {i} --tier thorough",
                    "evidence_file": f"evidence/{i}.json",
                    "technique": e["technique"],
                    "level": e["level"],
                    "level_note": e["note"],
                }
            )
        else:
            na.append({"property": i, "reason": "check under construction, not claimed yet"})
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo are needed: monitors observe the public API and wrap user callbacks. "
        "known_findings.txt lists recorded findings and fixed defects.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
