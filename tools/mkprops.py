"""Writes properties.jsonl (kept as a script so that the text stays editable)."""
import json
import os

M = "src/trusspy/model.py"
TP = "src/trusspy/solvers/tpsolver.py"
NW = "src/trusspy/solvers/zerosearch.py"
EL = "src/trusspy/elements/element_definition.py"
MT = "src/trusspy/materials/material_definition.py"
HE = "src/trusspy/handlers/handler_element.py"
HB = "src/trusspy/handlers/handler_boundary.py"
HN = "src/trusspy/handlers/handler_node.py"
HF = "src/trusspy/handlers/handler_extforce.py"
HR = "src/trusspy/handlers/handler_result.py"
HS = "src/trusspy/handlers/handler_settings.py"
CE = "src/trusspy/core/element.py"
CA = "src/trusspy/core/analysis.py"
PU = "src/trusspy/tools/plot_utilities.py"
H2 = "src/trusspy/tools/helper_functions2.py"
MG = "src/trusspy/tools/movie_generator.py"

SAMPLES = "The 8 existing tests run a handful of fixed structures and contain no assertion on results; "

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )


p(
    "C01",
    "Every recorded increment is an equilibrium state",
    "In every increment the solver records, the bar forces of the deformed structure balance the external loads (the held loads of the finished load steps plus the load-proportionality factor times the reference load of the current step) in every free degree of freedom, to the force tolerance the user asked for. An increment whose nonlinear iteration did not converge is never recorded and never becomes the start of a later load step; the results end with the last valid equilibrium.",
    ["inputs", "configurations", "histories"],
    "all trusses (space, planar, chains; elastic, elastic-plastic and mixed bars), all load histories and all solver settings, including settings under which increments fail",
    SAMPLES + "equilibrium must hold in every increment of every model, and failing increments only appear for unusual settings.",
    [M, TP, NW, EL],
    [("convergence test of the Newton iteration", NW + ":newton"), ("increments are stored only when converged and inside the step limits", TP + ":pathfollow"), ("out-of-balance force", M + ":Model.equilibrium")],
    ["Model.Results.R[i].U / .lpf / .step / .ExtForces"],
    [("Analysis.lpf", "load-proportionality factor of the increment", CA)],
)
p(
    "C02",
    "Recorded bar and node results follow exactly from the recorded displacements",
    "In every recorded increment the stretch of each bar is its deformed length divided by its undeformed length, its stress is the stress of its own material at the nominal strain stretch-1, its force is stress times its own section area, and the recorded nodal internal forces are exactly the vector sum of these bar forces along the deformed bar axes. The recorded free-DOF vectors, out-of-balance forces and load factor of an increment describe the same state as its displacements.",
    ["inputs", "configurations"],
    "all trusses with any node and element labels, any displacement reached (also large rotations and stretches), every recorded increment",
    SAMPLES + "no test compares a bar result with the kinematic and constitutive relations, let alone for arbitrary labels and large rotations.",
    [EL, MT, M],
    [("element kinematics, stress and force", EL + ":truss"), ("linear elastic material", MT + ":umat_el"), ("assembly and reduced vectors", M + ":Model.equilibrium")],
    ["Results.R[i].stretch / .element_stress / .element_force / .r / .g / .rred / .Ured / .Vred"],
)
p(
    "C03",
    "The tangent stiffness is the derivative of the internal forces",
    "At any state, elastic or plastic, stressed or not, the stiffness matrix of the model is symmetric and equals the derivative of the internal force vector with respect to the free displacements, in the same order of degrees of freedom. The extended matrix recorded with an increment is the derivative of the out-of-balance forces and of the control equation with respect to displacements and load factor.",
    ["inputs", "configurations"],
    "all trusses and all displacement states: large rotations, tension, compression, yielding and unloading bars, arbitrary supports",
    SAMPLES + "a wrong stiffness often still converges, only slower or not at all elsewhere, so tests that just run do not notice it.",
    [EL, MT, M, TP],
    [("material and geometric element stiffness", EL + ":truss"), ("consistent elastic-plastic modulus", MT + ":umat_elplast_iso"), ("reshape and reduction to free DOF", M + ":Model.stiffness"), ("extended matrix", TP + ":dfdx")],
    ["Model.stiffness", "Model.equilibrium", "Results.R[i].Kred / .Kmod / .K"],
)
p(
    "C04",
    "Plastic bars follow the isotropic-hardening law over the recorded history",
    "For every elastic-plastic bar, stress, yield stress and plastic strain in every recorded increment are exactly the one-dimensional isotropic-hardening return mapping applied to the sequence of strains of the recorded increments, starting unstrained at the initial yield stress. Trial states, repeated attempts and failed increments leave no trace in this history, and elastic bars of the same model are unaffected.",
    ["inputs", "histories", "configurations"],
    "all load histories including load reversal and several load steps, all material parameters, all settings, with and without repeated increment attempts, mixed materials in one model",
    SAMPLES + "the state must be right after every path of accepted and rejected attempts; the tests follow one path and check nothing.",
    [MT, M, TP, EL],
    [("return mapping", MT + ":umat_elplast_iso"), ("state variables are written only for accepted increments", TP + ":pathfollow / " + M + ":Model.equilibrium")],
    ["Results.R[i].state_v / .element_stress"],
    [("Analysis.state_v", "yield stress and plastic strain of each element", CA)],
)
p(
    "C05",
    "Supports hold, undefined entries are free and unloaded, reactions balance",
    "A locked displacement component is exactly zero in every increment and a component that is not locked is free to move; a node without a boundary definition is free in all components and a node without a force definition is unloaded, also when no boundary or no force is defined at all. In every increment the internal forces of the whole structure have zero resultant force and zero resultant moment about any point, so support reactions balance the applied loads.",
    ["inputs", "configurations"],
    "all combinations of defined, undefined and redundant boundary and force entries, in any order, with any node labels, for all recorded increments",
    SAMPLES + "the combinations of defined and undefined entries and label orders are unbounded.",
    [M, HB, HF, HN],
    [("undefined boundaries and forces are completed and sorted like the nodes", HB + ":fix_bounds_U / " + HF + ":fix_forces"), ("free and locked DOF lists", M + ":Model.build")],
    ["Results.R[i].U / .r", "Model.Boundaries / ExtForces after build"],
)
p(
    "C06",
    "No increment exceeds the step limits",
    "Between two consecutive recorded increments of a load step no displacement component changes by more than the displacement limit and the load factor by no more than the load limit, both times the allowed overshoot and the current step-width factor (1 without adaptive step-width control, never above the maximum factor with it); at least one component reaches its limit. With a control component fixed by the user, exactly this component changes by exactly its limit, in the direction asked for.",
    ["inputs", "configurations"],
    "all models, all step limits, overshoot tolerances, step-control parameters and fixed control components",
    SAMPLES + "the limits must hold in every increment on every path, including around limit points and after repeated attempts.",
    [TP],
    [("control equation and validity test of an increment", TP + ":f / pathfollow")],
    ["differences of Results.R[i].U and .lpf", "Results.R[i].dVmax"],
)
p(
    "C07",
    "A run records the complete, ordered list of increments and stops when told",
    "The results start with the undeformed unloaded state and contain, in order, every accepted increment of every load step, each labelled with its step and its start-of-increment displacement and stress equal to the end of its predecessor. Each step ends after exactly its own number of increments, or at the first increment in which its own limited component exceeds its maximum value, or early with a printed error notice; and every run ends after a bounded number of solver iterations.",
    ["inputs", "configurations", "histories"],
    "all numbers of steps and increments, single values or one value per step, any limited component and value, any settings including ones that make increments fail",
    SAMPLES + "stop conditions interact with step changes and failures in too many combinations to list.",
    [M, TP, HR],
    [("step loop and result list", M + ":Model.run"), ("increment loop, maximum value and error stops", TP + ":pathfollow")],
    ["Results.R", "printed notices"],
)
p(
    "C08",
    "Load steps are sequential: finished loads stay, the next load starts from zero",
    "In every load step the applied load is the sum over all finished steps of their final load factor times their reference load, plus the current factor times the current reference load, and each step starts exactly from the last state of the one before with factor zero and, like the first step, in the direction of increasing load factor (unless an initial control component with its sign is set). Splitting one load step into two steps with the same reference load continues the same path: an elastic structure reaches the same states as in one step.",
    ["inputs", "histories", "configurations"],
    "all load histories with any number of steps, also with unequal numbers of increments, early stops by maximum value, opposite or unrelated load directions",
    SAMPLES + "the load of a step depends on the outcome of all steps before, which no test enumerates or checks.",
    [M, TP],
    [("held loads of finished steps", M + ":Model.run"), ("final load factors", HR + ":ResultHandler.step_lpf_end")],
    ["Results.R[i].ExtForces.forces / .forces_const / .step / .lpf"],
)
p(
    "C09",
    "The solver follows the equilibrium path continuously and in one direction",
    "Each increment of an elastic structure is the next point of the equilibrium path that leaves the previous point in the direction of travel, at the distance where the first displacement or load component reaches its step limit, and the first increment follows increasing load factor. Passing limit points of load or displacement (snap-through, snap-back) the solver neither turns back nor skips to another branch, as long as the path is smooth at the scale of the step limits.",
    ["inputs", "configurations"],
    "all elastic trusses and step limits small compared with the curvature of the path, away from bifurcation points",
    SAMPLES + "a solver that turns back or jumps still produces equilibrium states and no error.",
    [TP, NW],
    [("prediction of control component and direction", TP + ":pathfollow"), ("change of control component and repetition of the increment", TP + ":pathfollow")],
    ["sequence of Results.R[i].U and .lpf"],
)
p(
    "C10",
    "Results do not depend on labels, definition order or bar orientation",
    "Renaming nodes and elements, defining nodes, elements, boundaries and forces in another order, or swapping the end nodes of bars changes no result of any node or bar: node results are listed in ascending node-label order and bar results in definition order. Labels need not be consecutive or start at one.",
    ["inputs", "configurations"],
    "all models, all permutations and renamings of labels, all definition orders, all orientations",
    SAMPLES + "all test models use ordered consecutive labels.",
    [M, HN, HB, HF, HE, EL],
    [("lookup by label instead of index", M + ":Model.equilibrium / " + EL + ":truss"), ("common sorting of nodes, boundaries and forces", M + ":Model.build")],
    ["Results.R[i]"],
)
p(
    "C11",
    "Results obey the symmetries of mechanics",
    "Moving the whole structure, permuting or mirroring the coordinate axes, changing the unit of force or of length (with step limits changed accordingly) and replacing a bar by parallel bars of the same total section transform all results accordingly: same load factors and stretches, transformed displacements, scaled forces. No coordinate direction or position is privileged.",
    ["inputs", "configurations"],
    "all models, all axis permutations and reflections, translations and unit scalings",
    SAMPLES + "nearly all test models lie in one coordinate plane.",
    [EL, M, TP],
    [("kinematics depends on coordinate differences only", EL + ":truss"), ("control by relative components", TP + ":pathfollow")],
    ["Results.R[i]"],
)
p(
    "C12",
    "Equivalent ways to define a model give the same model",
    "Objects or raw values, one by one or as lists, lists, tuples or arrays, integers or floats, long or short property keywords, properties given at creation or assigned afterwards to all, to listed elements or one by one: every documented way to define the same model gives identical model data and identical results. Assigning values to some elements never changes another element.",
    ["inputs", "configurations", "histories"],
    "all models and all mixtures of definition styles, including property lists of different length and integer input",
    SAMPLES + "each test uses one style.",
    [HE, HB, HF, HN, CE],
    [("handlers accept objects and raw values", HN + ", " + HE + ", " + HB + ", " + HF), ("later assignment of properties", HE + ":assign_*")],
    ["handler arrays after build", "Results.R[i]"],
)
p(
    "C13",
    "Editing a model behaves like editing a table keyed by label",
    "After any sequence of adding, deleting and assigning nodes, elements, boundaries and forces, the model contains exactly what a table keyed by label would contain: every query by label returns that entry's own values, nothing of a deleted entry remains and no other entry changes. The edited model solves exactly like a model defined directly in its final form.",
    ["histories", "inputs"],
    "all sequences of add, delete and assign operations, in any order, with re-used labels",
    SAMPLES + "no test deletes anything.",
    [HE, HB, HF, HN],
    [("parallel arrays kept in step", HE + ":add_element / del_element / assign_*"), ("lookup by label", HE + ":get_* / NA / NE")],
    ["handler arrays and getters", "Results.R of the edited model"],
)
p(
    "C14",
    "Building and running is repeatable and models do not influence each other",
    "Building and running a model again gives bitwise the same results, after changes to its definition the results of a fresh model with that definition; running one model never changes another model or its results. Results already obtained and arrays passed in by the user are never modified by later builds, runs or plots.",
    ["histories", "inputs"],
    "all interleavings of defining, building, running, changing and plotting several models in one session",
    SAMPLES + "each test runs one model once.",
    [M, HR, HB, HF, HN, CA],
    [("fresh result and analysis objects on build", M + ":Model.build"), ("copies of increments", HR + ":copy_increment / " + TP + ":pathfollow")],
    ["Results.R of all models after every operation"],
)
p(
    "C15",
    "Logging never changes results and a log file captures exactly the output",
    "Results are bitwise identical for every log level and with or without a log file. With a log file, the output of the model goes to the named file instead of the screen, and the standard output is in place again after the run, also if the run fails; a higher log level prints everything a lower one does, too.",
    ["configurations", "inputs", "fault_sequences"],
    "all models and settings, all log levels, log file on or off with any name, runs that fail with an exception",
    SAMPLES + "tests use the default level and do not look at output.",
    [M, TP, NW],
    [("redirection of output", M + ":Model.__init__ / run"), ("verbosity", TP + ":pathfollow")],
    ["Results.R", "standard output", "log file"],
)
p(
    "C16",
    "History and path plots show exactly the recorded values",
    "A history plot contains one point per recorded increment, undeformed state included, with exactly the requested quantity (displacement, internal force, load factor or increment number) of the requested node on each axis; a path plot contains the requested quantity of the requested increment for each listed node in the listed order. Axis labels and legend name what is drawn, and drawing into a given figure adds to it.",
    ["inputs", "configurations"],
    "all models with any node labels, all quantities and components on both axes, all increments, any node list",
    SAMPLES + "tests draw some plots and look at nothing in them.",
    [PU, H2],
    [("selection of the values by node label", PU + ":p_history / p_path"), ("drawing", H2 + ":plot_hist / plot_pth")],
    ["data of the drawn lines", "axis labels, legend"],
)
p(
    "C17",
    "Model plots show the structure, loads and contours of the requested increment",
    "A model plot shows every node and every bar at its position in the requested increment and view, an arrow for every non-zero load component at its node with the length load times scale, and, with a contour, every bar in the colour of its own stretch, force or stress within the contour limits. Title and labels name the increment and view; views may be any coordinate plane or 3d. The axes show exactly the range the user gives, by default the whole structure.",
    ["inputs", "configurations"],
    "all models with any labels, all increments including negative indices and the undeformed state, all load steps, all views, contours, limits and scales",
    SAMPLES + "tests draw some plots and look at nothing in them.",
    [PU, H2],
    [("selection of increment data", PU + ":p_model"), ("drawing of nodes, bars, arrows and colours", H2 + ":plot_nodes / plot_elems / plot_force")],
    ["drawn artists of the figure"],
)
p(
    "C18",
    "A movie contains one frame per requested increment, in order",
    "Making a movie writes one picture per requested increment (all increments by default), named by its number and showing that increment, and one animation, with the options given, whose frames are these pictures in ascending order. Pictures of an earlier movie never appear in a new one.",
    ["inputs", "configurations", "histories"],
    "all numbers and selections of increments (also more than 999), views, contours and sequences of movies made in the same directory",
    SAMPLES + "no test looks at the written files.",
    [PU, MG],
    [("frames", PU + ":p_movie"), ("animation", MG + ":png_to_gif")],
    ["files written to the figures directory"],
)
p(
    "C19",
    "The Newton solver reports success honestly",
    "For any function with its derivative, any start and tolerances, the solver reports success exactly when the last step and the residual at the returned point are below the tolerances, within the allowed number of iterations, and returns the number of iterations used and the actual norms. For a linear system one iteration gives the exact root, and near a regular root convergence is quadratic.",
    ["inputs", "configurations"],
    "all systems of equations with regular derivative, all start points, tolerances and iteration limits, with extra arguments",
    SAMPLES + "the iteration is only exercised through a few structures.",
    [NW],
    [("iteration loop and convergence test", NW + ":newton")],
    ["return values of newton"],
)
p(
    "C20",
    "Adaptive step-width control follows its rules",
    "With adaptive control all step limits of an increment are one common factor times the initial limits; the factor stays between the minimum and maximum factor, never grows faster than the documented increase, grows only if the four increments before were accepted without a reduction, and after failed attempts falls by whole powers of the reduction factor. After four clean increments it does grow, by the documented amount, and an attempt that fails is repeated with a smaller factor as long as the minimum factor and the allowed number of repetitions permit. Without adaptive control, or with a fixed factor range of one, every increment uses the initial limits.",
    ["inputs", "configurations", "histories"],
    "all models, all step-control parameters, all sequences of converging and failing attempts",
    SAMPLES + "one test turns adaptive control on and does not look at the step width.",
    [TP],
    [("step-width control", TP + ":dxmax_control")],
    ["Results.R[i].dVmax"],
)

p(
    "C21",
    "The printed report agrees with model, settings and results",
    "The report printed during build and run tells what was done: the summary lists the numbers of nodes, elements and degrees of freedom and the parameters in use, each load step lists its held loads and starting point, its increments numbered from one with all their attempts and iterations, the control component used, the biggest relative changes and the load factor that is recorded. Every change of the step width, repetition and early stop appears as a notice in the increment in which it happened, with the factor applied, and processor and wall times are what they are called.",
    ["inputs", "configurations", "histories"],
    "all models, settings and histories of accepted and repeated attempts, all log levels that print the respective part",
    SAMPLES + "no test looks at the printed report, and it is the only account of attempts, control components and step widths a user has.",
    [M, TP, NW],
    [("summary, parameters and results of a job", M + ":Model.build / run"), ("report of increments", TP + ":pathfollow / dxmax_control"), ("report of iterations", NW + ":newton")],
    ["standard output of Model.build and Model.run", "Results.R"],
)

p(
    "C22",
    "The path-following solver traces any system of equations",
    "For any system of equations with its derivative and reference load, not only trusses, every solution the path-following solver returns is finite and satisfies the equations within the tolerance, starts from the given vector, changes the control component by exactly its limit in the stated direction and every other one within the allowed overshoot. The solver ends after the allowed increments, beyond the given maximum value, or with an error notice after the last valid solution. Each solution comes with its own analysis object, the state is written exactly once per solution, and limits may be given as one number, two or one per component, with the documented defaults. The path starts in the direction of the given initial control component, and for linear systems the solutions are exact multiples of the linear solution.",
    ["inputs", "configurations"],
    "all systems of one or more unknowns with limit points, non-symmetric or undefined regions, all start vectors, control settings and forms of the limits",
    SAMPLES + "no test calls the solver with anything but a truss.",
    [TP],
    [("path following of a curve", TP + ":pathfollow"), ("extended system", TP + ":f / dfdx"), ("step-width control", TP + ":dxmax_control")],
    ["return values of trusspy.solvers.pathfollow", "standard output"],
)

p(
    "C23",
    "Contradictory models are refused and can be corrected",
    "A model whose definition contradicts itself never gives results: forces or supports at nodes that do not exist or twice for one node, two nodes or two bars with one label, bars to missing nodes, without length, material or area, with an unknown material type or too few properties, entries of a wrong size, more load steps than the force, increment or limit tables describe, a control component that does not exist, nothing that can move. Adding the entry, building or running raises an error, or the run ends with an error notice and no recorded increment. A refused entry leaves the tables unchanged, a second attempt is refused again, and after the wrong entry is removed or corrected the same model gives exactly the results of a model that was defined correctly from the start.",
    ["inputs", "histories"],
    "all models with one or two contradictions, made before or after the rest of the definition, before or after a first run, corrected one after the other",
    SAMPLES + "no test defines a wrong model.",
    [M, HF, HB, HN, HE, CE],
    [("check of the tables", M + ":Model.build"), ("completion of the tables", HF + ":fix_forces / " + HB + ":fix_bounds_U"), ("adding an entry", HE + ":add_element, " + HN + ":add_node"), ("choice of the material law and look-up of the nodes", M + ":Model.equilibrium"), ("steps", M + ":Model._run")],
    ["exceptions of the public methods", "Model.Results.R", "standard output"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        fh.write(json.dumps(x) + "\n")
