"""Writes /verif/properties.jsonl (kept as code so that anchors stay readable)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))


S = "src/trusspy/"
WHY = ("The 8 tests run a handful of fixed models and contain no assertion at all; ")

prop("C01", "Every reported increment is an equilibrium state",
     "For every increment a run reports, the internal forces implied by its displacements (through the element "
     "kinematics and material history), by its reported element forces and by its reported nodal forces all balance "
     "the external load at every free degree of freedom to within the configured force tolerance. The external load "
     "is the final loads of all earlier steps plus the reported load-proportionality-factor (LPF) times the reference "
     "load of the current step. Together with the support reactions it has no resultant force and no resultant moment.",
     ["inputs", "configurations", "histories"],
     "all stable models (geometry, connectivity, labels, materials, loads, 1..n load steps) and all solver settings",
     WHY + "a wrong equilibrium state passes every one of them.",
     [S + "model.py", S + "solvers/tpsolver.py", S + "solvers/zerosearch.py", S + "elements/element_definition.py"],
     [("residual assembly", S + "model.py:Model.equilibrium"), ("Newton convergence test", S + "solvers/zerosearch.py:newton"),
      ("acceptance of an increment", S + "solvers/tpsolver.py:pathfollow")],
     [("Results.R[i].U / lpf / element_force / r", "reported state of increment i", S + "core/analysis.py")],
     ["Model.Results.R after Model.run()"])

prop("C02", "Element stretch, stress and force follow the displacements",
     "In every reported result, including the undeformed one, the stretch of each element is its deformed length over "
     "its undeformed length and its force is its stress times its section area. For a linear-elastic element the "
     "stress is Young's modulus times (stretch - 1), at any displacement and rotation, each element using its own "
     "properties and its own end nodes.",
     ["inputs", "configurations"],
     "all models, element/node orders and labels, and all reported increments up to large rotations and stretches",
     WHY + "no element quantity is ever compared with anything.",
     [S + "elements/element_definition.py", S + "materials/material_definition.py", S + "model.py"],
     [("kinematics and force", S + "elements/element_definition.py:truss"), ("elastic law", S + "materials/material_definition.py:umat_el"),
      ("property lookup by label", S + "handlers/handler_element.py")],
     observe=["Results.R[i].stretch / element_stress / element_force / U"])

prop("C03", "Plastic history equals return mapping of accepted increments",
     "For elastic-plastic elements the stress, plastic strain and yield stress of every reported increment are those of "
     "rate-independent plasticity with linear isotropic hardening applied to exactly the sequence of reported "
     "increments. Recycled attempts, Newton iterations, the predictor and other elements leave no trace in them, the "
     "stress never exceeds the yield stress and the yield stress never decreases, also across load reversals and steps.",
     ["inputs", "histories", "fault_sequences"],
     "all load histories (yielding, unloading, reversal, several steps) and all sequences of failed/recycled attempts in between",
     WHY + "three tests use plasticity but none looks at stress or state, and none forces recycles in the plastic range.",
     [S + "materials/material_definition.py", S + "model.py", S + "elements/element_definition.py", S + "solvers/tpsolver.py"],
     [("return mapping", S + "materials/material_definition.py:umat_elplast_iso"),
      ("state written only on acceptance", S + "model.py:Model.equilibrium (statev_write)"),
      ("state copy per element", S + "model.py:Model.equilibrium")],
     [("Analysis.state_v", "yield stress and plastic strain per element", S + "core/analysis.py")],
     ["Results.R[i].element_stress / state_v / U"])

prop("C04", "The tangent stiffness is the derivative of the internal forces",
     "At every displacement and material state the stiffness matrix evaluated by the model (full and restricted to the "
     "free degrees of freedom) is the exact derivative of the internal nodal forces with respect to the displacements, "
     "is symmetric and produces no force under a rigid translation. The stiffness stored with a reported increment is "
     "the one at its converged state, up to the Newton tolerance.",
     ["inputs", "histories"],
     "all models, displacement states (large rotation and strain included), elastic and yielding states",
     "one test calls the stiffness for one model and does not look at the result.",
     [S + "elements/element_definition.py", S + "model.py", S + "materials/material_definition.py"],
     [("element stiffness", S + "elements/element_definition.py:truss"), ("assembly and reduction", S + "model.py:Model.stiffness"),
      ("consistent modulus", S + "materials/material_definition.py")],
     observe=["Model.stiffness(), Model.equilibrium(), Results.R[i].K / Kred"])

prop("C05", "Nodal forces assemble the element forces and balance themselves",
     "In every reported result the internal nodal force vector is the sum over all elements of +/- the element force "
     "along its deformed direction at its two end nodes, so its resultant force and its resultant moment in the "
     "deformed configuration vanish. The reported equilibrium vector is the external load minus these internal forces "
     "at every degree of freedom (i.e. minus the reaction at a support).",
     ["inputs", "configurations"], "all connectivities (shared nodes, parallel elements, free-standing parts), orders and labels",
     WHY + "reaction forces are plotted but never checked.",
     [S + "elements/element_definition.py", S + "model.py"],
     [("accumulation of element contributions", S + "elements/element_definition.py:truss"), ("reset of r", S + "model.py:Model.equilibrium")],
     observe=["Results.R[i].r / g / element_force / U"])

prop("C06", "Supports hold, everything else is free",
     "A displacement component that was declared locked stays exactly zero in every reported result; every other "
     "component - declared free, or of a node without any boundary condition - is unconstrained, i.e. carries no "
     "reaction and appears in the set of active degrees of freedom. A node without external force is unloaded. This "
     "holds for any order in which nodes, boundaries and forces were added and for any node labels.",
     ["inputs", "configurations"], "all combinations of partially locked nodes, missing/explicit entries, orders and labels",
     WHY + "all tests add nodes and boundaries in ascending label order.",
     [S + "handlers/handler_boundary.py", S + "handlers/handler_extforce.py", S + "handlers/handler_node.py", S + "model.py"],
     [("completion and sorting", "fix_nodes / fix_bounds_U / fix_forces"), ("active/locked partition", S + "model.py:Model.build")],
     [("Analysis.DOF0/DOF1", "locked/active degrees of freedom", S + "core/analysis.py")],
     ["Results.R[i].U, .r, .DOF0, .DOF1"])

prop("C07", "Each increment obeys the configured step limits",
     "With automatic control, each reported increment changes at least one component of (free displacements, LPF) by "
     "exactly the limit in effect and none by more than the allowed overshoot factor times its limit. With a locked "
     "control component, that component changes by exactly its limit in the requested direction. A configured "
     "initial control component governs the first increment instead of the LPF.",
     ["inputs", "configurations", "histories"], "all models and settings du, dlpf, dxtol, j0, j_fixed, j_pre",
     WHY + "no test inspects increment sizes; initial control components are never used.",
     [S + "solvers/tpsolver.py", S + "handlers/handler_settings.py", S + "model.py"],
     [("control equation", S + "solvers/tpsolver.py:f/dfdx"), ("validity check against dxtol", S + "solvers/tpsolver.py:pathfollow")],
     observe=["differences of consecutive Results.R[i]"])

prop("C08", "The adaptive control keeps its factor rules",
     "With step control on, the limits in effect are one common factor times the configured limits, the factor starts "
     "at one in each step, always lies between the minimum and maximum factor, grows by at most (1+increase) per "
     "increment and not before four further increments have converged since a reduction, and shrinks only by powers "
     "of the reduction factor (down to the minimum). With step control off the limits never change.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "all convergence histories, including injected slow and failing Newton solutions",
     WHY + "step control is switched on in some but reductions hardly ever happen there.",
     [S + "solvers/tpsolver.py"], [("dxmax_control", S + "solvers/tpsolver.py"), ("call per attempt", S + "solvers/tpsolver.py:pathfollow")],
     [("Analysis.dVmax", "limits used for the increment", S + "solvers/tpsolver.py:pathfollow")],
     ["Results.R[i].dVmax"])

prop("C09", "Steps end exactly where the settings say",
     "A step reports at most its configured number of increments, and it stops right after the first reported "
     "increment in which the absolute value of the chosen component exceeds its limit, never before and never later. "
     "It ends earlier only if it reports a failure. Per-step increment numbers and limits apply to their own step.",
     ["inputs", "configurations", "histories"], "all limits, components (free displacements or LPF), single or per step, any number of steps",
     WHY + "limits are set in some of them but where the run stopped is not looked at.",
     [S + "model.py", S + "solvers/tpsolver.py"],
     [("incs/xlimit per step", S + "model.py:Model.run"), ("stop test", S + "solvers/tpsolver.py:pathfollow")],
     observe=["Results.R (step, U, lpf), captured output"])

prop("C10", "Load steps accumulate: earlier final loads stay, LPF restarts",
     "In step k the held load is the sum over all earlier steps of their final LPF times their reference load, the "
     "displacements, plastic state and geometry continue from the end of step k-1, and the LPF of the step counts from "
     "zero. The reported final LPF of every step is that of its last reported increment (zero if it has none), also if "
     "a step ended by failure or by its limit.",
     ["inputs", "histories", "configurations"], "all numbers of steps, reference loads and ways in which earlier steps ended",
     WHY + "two run four steps of proportional loads, without looking at forces.",
     [S + "model.py", S + "handlers/handler_result.py"],
     [("held loads", S + "model.py:Model.run (f0_const)"), ("step_lpf_end", S + "handlers/handler_result.py"), ("LPF reset", S + "model.py:Model.run")],
     observe=["Results.R[i].ExtForces.forces_const, .step, .lpf, Results.step_lpf_end"])

prop("C11", "Only converged increments are reported, failures leave no trace",
     "An attempt that did not converge or broke a limit never appears among the results, whatever happens afterwards "
     "(recycles, step reduction, giving up). Results of a run that gives up are exactly the increments converged "
     "before, the failure is reported in the output, and a following step starts from the last converged state. An "
     "increment with a load that the structure cannot carry is never reported.",
     ["inputs", "fault_sequences", "histories"],
     "all points at which Newton attempts can fail (corrupted tangent, non-finite residual, iteration limit, limit loads, singular systems)",
     WHY + "none provokes a failure in a way that could be noticed.",
     [S + "solvers/tpsolver.py", S + "solvers/zerosearch.py", S + "model.py"],
     [("success flag and recycle loop", S + "solvers/tpsolver.py:pathfollow"), ("convergence test", S + "solvers/zerosearch.py:newton")],
     observe=["Results.R under fault injection at Model.stiffness/Model.equilibrium"])

prop("C12", "The result history is a consistent chain of independent snapshots",
     "The first result is the undeformed unloaded model; each later one starts exactly from the displacements of its "
     "predecessor, no converged increment is missing or reported twice, and the full, reduced and extended "
     "displacement vectors and the LPF of one result agree exactly. Results are snapshots: a later increment, step, or "
     "a modification of one result, of the model or of its inputs, changes no other result.",
     ["inputs", "histories"], "all runs, steps and later mutations of results/model",
     WHY + "results are only plotted.",
     [S + "handlers/handler_result.py", S + "model.py", S + "solvers/tpsolver.py"],
     [("deep copies", S + "solvers/tpsolver.py:pathfollow, " + S + "handlers/handler_result.py"), ("insertion", S + "model.py:Model.run")],
     observe=["Results.R during and after the run"])

prop("C13", "Input order, labels and element direction do not matter",
     "The order in which nodes, elements, boundaries and forces are added, the choice of node and element labels, "
     "swapping the two end nodes of an element, and splitting an element into parallel ones of the same total area do "
     "not change the computed path: displacements, LPF, nodal forces, element forces and plastic states agree node by node and element by element.",
     ["inputs", "programs"], "all permutations, relabelings, direction flips and splits of a model",
     WHY + "every test model uses ascending, consecutive labels.",
     [S + "model.py", S + "handlers/handler_node.py", S + "handlers/handler_boundary.py", S + "handlers/handler_extforce.py", S + "handlers/handler_element.py", S + "elements/element_definition.py"],
     [("lookup by label", S + "elements/element_definition.py:truss"), ("sorting by label", "fix_* methods of the handlers")],
     observe=["Results.R of the two runs"])

prop("C14", "Results are objective and scale with the units",
     "Translating a model, permuting or mirroring the coordinate axes, or changing the units of force or length "
     "(with all inputs converted) changes the results only by the same transformation. For any rotation of a model and "
     "its displacements, internal forces and stiffness rotate along, and a rigid-body motion causes no internal force.",
     ["inputs"], "all models and translations, signed axis permutations, rotations, unit factors",
     WHY + "no model is solved twice in different frames.",
     [S + "elements/element_definition.py", S + "model.py"], [("kinematics", S + "elements/element_definition.py:truss")],
     observe=["Results.R of the two runs, Model.equilibrium, Model.stiffness"])

prop("C15", "Runs are deterministic, repeatable and independent of each other",
     "The same inputs give bit-identical results whenever they are run: a second time after rebuilding the same model, in a "
     "fresh process with another hash seed, after or between other models, or with another log level. Building and running "
     "changes none of the user's inputs (coordinates, properties, boundaries, forces, settings), and editing them between "
     "two runs has the same effect as building a new model from the edited inputs.",
     ["histories", "schedules", "programs"], "all interleavings of build/run of several models, log levels, re-runs and edits in between",
     WHY + "one re-runs a model with other materials, none compares.",
     [S + "model.py", S + "handlers/handler_result.py", S + "core/analysis.py", S + "core/element.py"],
     [("fresh Analysis/Results per build", S + "model.py:Model.build"), ("copies of forces", S + "model.py:Model.run")],
     observe=["Results.R and handler arrays before/after"])

prop("C16", "Handlers behave like a table keyed by label",
     "After any sequence of adding, deleting and assigning nodes, elements, boundaries, forces, materials, geometries, "
     "element and material types, every label has exactly the values last given to it and no other label is affected. "
     "Numbers are kept unaltered (no truncation, missing trailing material parameters are zero), added objects are "
     "copied, and a model edited into a state behaves like one created in that state.",
     ["histories", "inputs", "programs"], "all sequences of handler operations, by raw values, core objects or lists",
     "the tests only add in order, and assign to all; deletion is never exercised.",
     [S + "handlers/handler_element.py", S + "handlers/handler_node.py", S + "handlers/handler_boundary.py", S + "handlers/handler_extforce.py", S + "core/element.py"],
     [("parallel arrays", S + "handlers/*.py"), ("padding of material properties", S + "handlers/handler_element.py:assign_material")],
     observe=["public getters and arrays of the handlers"])

prop("C17", "Inconsistent models are refused, never silently solved",
     "Boundaries or forces on unknown nodes or given twice for a node, elements that refer to unknown nodes, duplicate "
     "node or element labels, unknown material types, missing material or section properties, both spellings of one "
     "property, and missing load columns for a step lead to an exception while the model is created, built or run. "
     "No increment of such a model is ever returned as a completed run.",
     ["inputs"], "all positions and combinations of one such defect in an otherwise valid model",
     "no test feeds an invalid model.",
     [S + "model.py", S + "core/element.py", S + "handlers/handler_boundary.py"],
     [("consistency check", S + "model.py:Model.build"), ("property check", S + "core/element.py:Element.__init__")],
     observe=["exception or completion of create/build/run"])

prop("C18", "Model plots show the computed geometry, values and loads",
     "A model plot of increment i (any view, negative indices counted from the end) shows each element as a line between the "
     "deformed positions of its own end nodes, each node at its deformed position, and an arrow of length scale times force "
     "component for each non-zero external load of that increment (the reference load for the undeformed increment). With a "
     "contour each element has the color of its own value on the chosen or automatic limits; the undeformed increment has no contour.",
     ["inputs", "configurations"], "all models, labels, views, increments, contours and limits",
     "the tests produce plots but look at no artist, and all labels are 1..n.",
     [S + "tools/plot_utilities.py", S + "tools/helper_functions2.py"],
     [("p_model", S + "tools/plot_utilities.py"), ("plot_elems/plot_nodes/plot_force", S + "tools/helper_functions2.py")],
     observe=["matplotlib artists of the returned axes"])

prop("C19", "History and path plots show the recorded quantities",
     "A history plot shows, for every reported result in order and once, the requested displacement or force component of "
     "the requested nodes, the LPF, or the increment number, and a path plot shows the requested quantity of the given "
     "increment for each node of the path in order. Given axes are drawn on, and the labels name the quantities.",
     ["inputs", "configurations"], "all quantities, node pairs, node paths, increments, labels",
     "the tests produce such plots but never look at the data.",
     [S + "tools/plot_utilities.py", S + "tools/helper_functions2.py"],
     [("p_history / p_path", S + "tools/plot_utilities.py"), ("plot_hist / plot_pth", S + "tools/helper_functions2.py")],
     observe=["line data of the returned axes"])

prop("C20", "A movie has one frame per requested increment, in order",
     "A movie contains exactly one frame for each requested increment (given by its non-negative number; all but the undeformed one by default), in the order "
     "of the increments, each frame showing the model plot of its increment with the requested options. Frames of an earlier movie never "
     "appear in a later one.",
     ["inputs", "histories"], "all selections of increments (also beyond 999) and repeated movie generation",
     "the tests generate movies but never open one.",
     [S + "tools/plot_utilities.py", S + "tools/movie_generator.py"],
     [("p_movie", S + "tools/plot_utilities.py"), ("png_to_gif", S + "tools/movie_generator.py")],
     observe=["figures at savefig, frames of the GIF file"])

prop("C21", "Output goes where it was requested and stdout is handed back",
     "Without a requested log file a run writes no file and leaves the standard output alone; with one, the progress "
     "output of creation, build and run goes completely to that file and, once the run has ended normally or by an "
     "exception, the standard output is what it was when the model was created. At log level zero a run without "
     "failure and without reached limit prints nothing, and the log level never influences the results.",
     ["configurations", "histories", "fault_sequences"], "all log levels, log files, failing runs, sequences of models",
     "two tests write a log file and nobody reads it.",
     [S + "model.py", S + "solvers/tpsolver.py"], [("redirection of stdout", S + "model.py:Model.__init__, Model.run")],
     observe=["sys.stdout, files, captured output"])

prop("C22", "The Newton solver keeps its contract for any function",
     "Success is reported if and only if, at the returned point, the residual norm and the norm of the last update are below "
     "their tolerances, and the iteration stops at the first point where that is so; otherwise it performs exactly the allowed "
     "number of iterations (a singular or non-finite linear system may be refused with an exception). The returned norms and iteration count belong to the returned point, every update solves the "
     "linearized equations, extra arguments are passed on unchanged and the start vector is not modified.",
     ["inputs"], "all differentiable systems, start vectors, tolerances, iteration limits",
     "the solver is only used inside full models, and no convergence information is looked at.",
     [S + "solvers/zerosearch.py"], [("newton", S + "solvers/zerosearch.py")],
     observe=["calls of the supplied functions, return values"])

prop("C23", "Path following traces solutions of any one-parameter system",
     "For any user-supplied equilibrium function and derivative, every returned point but the start solves the equations to tolerance, "
     "consecutive points differ by the step limits as configured (scalar, pair or one limit per component are equivalent spellings), "
     "the first row is the start point with zero parameter, and solutions and analysis snapshots correspond one to one. "
     "Given a fixed control component and no limit points it finds the same points as a direct solution.",
     ["inputs", "configurations"], "all smooth one-parameter systems, start points, limits and control settings",
     "the function is only used inside the model class.",
     [S + "solvers/tpsolver.py"], [("pathfollow", S + "solvers/tpsolver.py")],
     observe=["return values, calls of the supplied functions"])

prop("C24", "Every run ends within bounded effort and without garbage",
     "Whatever the model and settings (mechanisms, overloads, unreachable tolerances, non-finite tangents), a run ends after a number of "
     "stiffness evaluations bounded by increments x recycles x Newton iterations x possible step reductions, either normally, with a "
     "reported failure or with an exception. Reported increments contain only finite numbers, and no "
     "increment uses more Newton iterations per attempt than allowed.",
     ["inputs", "configurations", "fault_sequences"], "all models, settings and injected evaluation faults",
     WHY + "no test drives the recycle/reduction loop to its limits.",
     [S + "solvers/tpsolver.py", S + "solvers/zerosearch.py"],
     [("recycle counter and stop flags", S + "solvers/tpsolver.py:pathfollow"), ("dxmax_control", S + "solvers/tpsolver.py"), ("iteration limit", S + "solvers/zerosearch.py:newton")],
     observe=["number of Model.stiffness calls, Results.R"])

prop("C25", "Limit points are passed: the path continues, it does not turn back",
     "For a shallow two-bar truss under a vertical apex load the automatically controlled path follows the closed-form "
     "load-displacement curve through both limit points: the apex displacement advances monotonically, every reported point "
     "lies on the closed-form curve, and the LPF falls to negative values and rises again after snap-through.",
     ["inputs", "configurations"], "all two-bar geometries, stiffnesses, areas, load magnitudes and directions, step settings",
     "two tests trace such a curve but do not look at it.",
     [S + "solvers/tpsolver.py", S + "model.py"], [("choice and sign of the control component", S + "solvers/tpsolver.py:pathfollow")],
     observe=["Results.R (U, lpf)"])

prop("C26", "The step control adapts, retries and gives up exactly as documented",
     "With step control on, an increment that converges at its first attempt without a change of the control component enlarges the "
     "limits of the next increment by the factor 1 + increase x (unused share of the allowed iterations), up to the maximum factor, "
     "unless fewer than four increments have converged since the last reduction; an attempt that does not converge without a change "
     "of the control component divides the limits by the reduction factor, down to the minimum factor, and the increment is repeated "
     "from the same point; in all other cases the limits stay. An attempt that converges inside the limits is accepted, one that "
     "exceeds them is repeated under the largest component. An increment is given up if and only if the allowed number of attempts "
     "is used up (a reduction forced at that point starts it anew) or neither limits nor control component can change any more. "
     "Arguments of the path following that are left out mean their documented default values.",
     ["inputs", "configurations", "fault_sequences", "histories"],
     "all one-parameter systems and models, control settings and disturbances of the iterations",
     WHY + "no test makes an increment fail and recover.",
     [S + "solvers/tpsolver.py", S + "model.py"],
     [("dxmax_control", S + "solvers/tpsolver.py"), ("recycle loop", S + "solvers/tpsolver.py:pathfollow")],
     observe=["calls of the equilibrium and stiffness callbacks", "Results.R (dVmax, Vred)"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
