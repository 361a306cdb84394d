"""Writes properties.jsonl and MANIFEST.json from the table below (run: python3 tools/gen.py)."""
import glob, json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    anchors = dict(files=["lumos/" + f for f in files],
                   mechanism=[dict(name=n, where="lumos/" + w) for n, w in mechanism])
    if state:
        anchors["state"] = [dict(name=n, meaning=m, where="lumos/" + w) for n, m, w in state]
    if observe:
        anchors["observe_at"] = list(observe)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=anchors))


OCP = "optimal_control/scaled_mesh_ocp.py"
NLP = "optimal_control/nlp.py"
UT = "optimal_control/utils.py"
BASE = "models/base.py"
TREE = "models/tree_utils.py"

prop("C01", "The NLP constraints and objective are those of the stated control problem",
  "For every optimal control problem that can be built, the constraint values at any decision vector are exactly the model defects (dynamics minus states_dot, outputs minus con_outputs, residuals) at every stage with that stage's inputs and mesh position, the collocation equations between neighbouring stages with the interval lengths of the mesh, and first-minus-last for every cyclic variable and no other. The objective is the total mesh scale (free mesh) or the time elapsed between first and last stage (fixed mesh) plus exactly the declared extra terms. The constraint bounds are equality to zero, so a feasible point of the NLP is a solution of the transcribed problem.",
  ["configurations", "inputs"],
  "all combinations of model shape, scheme and stage count, interval count and spacing, backend, cyclicity with any non-cyclic subset, condensation, fixed/free mesh; decision vectors from a grid that separates every term",
  "The tests evaluate a few fixed problems and mostly check that derivatives are self-consistent, so a wrong stage pairing, sign or interval length that is consistently differentiated passes; the quantifier is over configurations.",
  [OCP, "optimal_control/convolution.py", "optimal_control/fixed_mesh_ocp.py", "optimal_control/transcription.py"],
  [("model algebra mapped over stages", "optimal_control/convolution.py:ConvConstraints.constraints"),
   ("continuity equations", OCP + ":_continuity_constraints"), ("cyclic constraints", OCP + ":_cyclic_constraint"),
   ("time objective", OCP + ":_time_objective")], observe=["problem.constraints(x)", "problem.objective(x)", "split_constraints"])

prop("C02", "Jacobian, gradient, Hessian and their sparsity structures are exact",
  "For every problem, the gradient, constraint Jacobian and Lagrangian Hessian reported in the declared sparsity structure (Hessian: upper triangle including multipliers and objective factor) equal the true derivatives of that problem's own objective and constraints at every decision vector, with no entry outside the declared structure. Values and structure always have the same length, and this holds for the unscaled problem as well as after any scaling.",
  ["configurations", "inputs"],
  "same configuration grid as C01, several decision vectors and all unit multipliers plus mixed multipliers",
  "Derivative tests sample one random point per hand-picked configuration with loose finite-difference tolerance; missing structural entries that are zero at that point or in that configuration are invisible.",
  [OCP, "optimal_control/convolution.py", NLP, UT],
  [("continuity Jacobian structure", OCP + ":_continuity_jacobianstructure"), ("continuity Hessian", OCP + ":_continuity_hessian"),
   ("stage algebra derivatives", "optimal_control/convolution.py"), ("upper triangle", UT + ":upper_tril_indices")],
  observe=["problem.jacobian/jacobianstructure", "problem.hessian/hessianstructure", "problem.gradient"])

prop("C03", "All backends compute the same model",
  "For a given model, parameter set and point, the jax, casadi and custom backends return the same constraint values, Jacobian and Hessian entries (summed into a dense matrix), and all agree with calling the model directly with plain numbers. This stays true for any parameter values of any shape, including after the parameters of the problem are replaced.",
  ["configurations", "inputs"],
  "all library and harness models x backends x con-output selections x grid points x parameter variants",
  "Tests compare backends for one model at one random point with default parameters; layout errors that need non-default matrix parameters, or structural zero differences, are not reached.",
  [BASE, "models/tree_utils.py", "numpy/utils.py", "numpy/__init__.py"],
  [("jax model algebra", BASE + ":_make_jax_model_algebra_cons"), ("casadi model algebra", BASE + ":_make_casadi_model_algebra_cons"),
   ("custom model algebra", BASE + ":make_model_algebra_cons")], observe=["model.model_algebra", "problem.constraints"])

prop("C04", "A condensed problem is the full problem with states_dot eliminated",
  "For every configuration, the condensed problem's constraints equal those of the full problem evaluated with states_dot set to the model's dynamics (with the dynamics defects dropped), whatever values sit in the unused states_dot entries; its objective is unchanged. Its Jacobian and Hessian are the exact total derivatives of those constraints, and its states_dot variables are pinned to zero by the bounds.",
  ["configurations", "inputs"],
  "configuration grid with condensation on, decision vectors differing also in the states_dot entries, multiplier grid",
  "The condensed Jacobian and Hessian are assembled by hand through a chain rule and tested at one point on one model; the pairing of terms depends on scheme, intervals and group sizes.",
  [OCP], [("condensed constraints", OCP + ":_condensed_constraints"), ("chain rule", OCP + ":_make_chainrule_condensed_jacobian"),
          ("condensed Hessian", OCP + ":_condensed_hessian")], observe=["problem.constraints/jacobian/hessian with is_condensed"])

prop("C05", "Collocation schemes are exact up to their order",
  "For every supported scheme and stage count, the collocation points lie in [-1, 1] in increasing order at the published nodes, polynomials up to the scheme's degree are differentiated, interpolated and integrated exactly, and the resulting continuity equations hold exactly for every trajectory polynomial of that degree over an interval of any length. The integral form accepts every trajectory polynomial that the differential form with the same stages accepts. Unsupported schemes or stage counts are refused.",
  ["configurations", "inputs"],
  "all schemes, stage counts up to the bound, all monomials up to the scheme's degree (a basis, so all polynomials), all interval lengths in a grid",
  "Tests check a couple of stage counts and one function; exactness must hold for each stage count and the whole polynomial basis.",
  ["optimal_control/collocation.py", "optimal_control/transcription.py"],
  [("collocation points", "optimal_control/collocation.py"), ("differentiation matrix", "optimal_control/collocation.py"),
   ("continuity matrices", "optimal_control/transcription.py:get_continuity_matrices")])

prop("C06", "The decision vector layout is a consistent one-to-one map",
  "For every set of variable groups, stage and interval counts and global variables, each (group, variable, stage) and each global variable owns exactly one position of the decision vector and all positions are owned; every way to ask for indices (single variable, group, stage, negative stage, whole trajectory, per-interval view) agrees with it. Flattening and unflattening are inverse to each other, and unknown names or stages out of range are refused.",
  ["configurations", "inputs"],
  "all partitions of group sizes 0..3, intervals 1..4, stages per interval 2..4, global sets of size 0..2; every (group, name, stage)",
  "Tests use one layout; collisions and off-by-ones depend on group sizes, in particular on empty groups, last stages and several globals.",
  [UT], [("DecVarOperator", UT + ":DecVarOperator")], observe=["get_var_index_in_dec", "flatten_var/unflatten_var", "get_interval_tensor"])

prop("C07", "Bounds and boundary conditions take effect exactly as last stated",
  "After any sequence of bound and boundary-condition updates, the bounds handed to the solver are, for every variable and stage, the last boundary condition given for that variable at that stage if there is one, otherwise the last general bound given for that variable, otherwise unbounded - divided by the variable's scale. A refused update (unknown variable, wrong length, crossed bounds) leaves the effective bounds as they were, and no update changes bounds of any other variable.",
  ["histories", "configurations"],
  "all sequences of up to 4 operations over bound updates (scalar, array), boundary conditions at first, inner and last stage, re-statements, scale changes and refused updates",
  "Tests call each update once; the precedence between general bounds and boundary conditions only shows for particular orders of several updates.",
  [OCP, NLP], [("update_bounds", OCP + ":update_bounds"), ("update_boundary_conditions", OCP + ":update_boundary_conditions"), ("get_lb_ub", NLP + ":CompositeProblem")],
  state=[("boundary conditions", "boundary conditions stated so far", OCP), ("bounds", "unscaled bounds per decision variable", OCP)],
  observe=["problem.lb / problem.ub as seen by the solver"])

prop("C08", "Scaling changes units only, never the problem",
  "Under any history of scale settings, every quantity of the scaled problem is the unscaled quantity in the scaled units: constraints divided by their scales (the dynamics and continuity of a state by that state's scale, an output's by its own, all others by 1), variables and bounds divided by variable scales, and gradient, Jacobian and Hessian transformed accordingly. The last statement of scales fully determines the scaling - whatever it does not name has scale 1 - and scaling a point and unscaling it gives the point back. Changing scales never changes the unscaled bounds, boundary conditions, constraints or objective, and solutions are returned in unscaled variables.",
  ["histories", "configurations", "inputs"],
  "all sequences of up to 3 scale statements (partial, full, per-stage, global, objective) interleaved with bound updates on several problem types",
  "Scaling enters every callback separately; tests check a single scaling on a single problem, so a callback that misses one factor for one entry class is invisible when that scale is 1.",
  [NLP, OCP], [("decision scales", NLP + ":set_decision_scales"), ("constraint scales", NLP + ":set_constraint_scales"), ("scales from config", OCP + ":set_scales")],
  state=[("scales", "current variable, constraint and objective scales", NLP)])

prop("C09", "Composing constraints and objectives keeps blocks aligned",
  "After any sequence of adding and deleting constraint blocks and objectives, in any order and interleaved with evaluations, the composite problem's values, bounds, Jacobian, Hessian and structures are exactly those of the blocks currently present, in the order they were added, each fed with its own slice of multipliers. Adding an existing name or deleting an unknown one is refused without any effect.",
  ["histories"],
  "all histories up to depth 5 over {add, delete, evaluate} on blocks with and without Hessian, linear and nonlinear, overlapping sparsity, explicit-state search with reference list model",
  "Tests build one composite problem and evaluate it once; stale caches and misaligned slices need add/delete/evaluate interleavings.",
  [NLP], [("CompositeProblem", NLP + ":CompositeProblem"), ("split_constraints", NLP + ":split_constraints")],
  state=[("constraint blocks", "ordered named blocks", NLP), ("cached Hessian triangle", "indices kept from the first request", NLP)])

prop("C10", "Reconfiguring a problem equals building it anew in that configuration",
  "After any sequence of modifying model parameters, changing the mesh scale or the normalized mesh, restating bounds, boundary conditions or scales, with evaluations anywhere in between, the problem evaluates exactly as a problem freshly built with the final parameters, mesh, bounds and scales. This holds for every backend and for condensed problems.",
  ["histories", "configurations"],
  "all operation sequences up to depth 4 over the reconfiguration alphabet, for each backend/condensation/mesh type, compared with an independent reference problem",
  "Each setter is tested at most once from a fresh problem; stale parameters, meshes or compiled functions only show after a sequence with an evaluation before the change.",
  [OCP, "optimal_control/fixed_mesh_ocp.py", "optimal_control/convolution.py"],
  [("modify_model_param", OCP + ":modify_model_param"), ("set_normalized_mesh", OCP + ":set_normalized_mesh"), ("set_mesh_scale", "optimal_control/fixed_mesh_ocp.py")],
  state=[("parameters", "model parameters used by the constraints", OCP), ("mesh", "normalized mesh and its scale", OCP)])

prop("C11", "Parameter trees keep every value through all of their representations",
  "For every nested parameter set (scalars, vectors, matrices, empty and size-one arrays, any depth of submodels), converting to a flat vector, a dictionary, a copied tree or through a symbolic/compiled function and back returns the same values, shapes and names. Reading or setting a parameter by path touches exactly that entry, a path through an unknown submodel and a replacement that is not a tree are refused, and replacing values in one tree never changes another tree that was copied from it.",
  ["inputs", "histories"],
  "all trees up to depth 3 and 3 leaves per node over leaf shapes {scalar,(0,),(1,),(3,),(1,1),(2,3)}, all conversions and update sequences up to length 3",
  "Tests use one hand-written tree with symmetric shapes; order errors need non-square matrices and unusual child ordering.",
  [TREE, "numpy/utils.py", BASE], [("ParameterTree", TREE + ":ParameterTree"), ("flatten/unflatten", TREE)])

prop("C12", "Models assembled from configuration have the declared structure",
  "Whatever configuration selects submodels at any depth, the assembled model contains exactly the selected types at the selected places, with their default parameters and configuration overridden exactly where stated; its input, state and output names are the declared ones plus the submodels' outputs prefixed by their place. Unknown model types, configurations of the wrong class, missing or unknown submodel places, re-registered type names, and constraint outputs or residuals that are declared on a model but are not among its outputs are refused.",
  ["configurations", "programs"],
  "all assignments of registered types to submodel places of two-level compositions, all subset overrides of parameters, all declared-name clashes over a small alphabet",
  "Tests assemble the default model; wrong defaults or overrides for another selection pass unnoticed.",
  ["models/composition.py", BASE, TREE],
  [("ModelMaker", "models/composition.py:ModelMaker"), ("io decorators", BASE + ":model_io"), ("recursive names", BASE)])

prop("C13", "A submodel call sees exactly its inputs and parameters",
  "However models are nested and in whatever order names are given, a model call receives each input under its own name and computes with the parameters set on exactly that model; converting named values to vectors and back keeps every value at its name. Any history of plain, batched, vector and traced calls, also failing ones, on the same or different models gives the same results as fresh models, where calling with explicit parameters sets those parameters on the model. A missing input, state or parameter is refused, and an unexpected one is ignored.",
  ["histories", "inputs"],
  "all permutations and subsets of input names, all call sequences of length up to 3 over {plain call, call with other parameters, array call, batched call, traced call} on one- and two-level models",
  "Tests make a single call; leaks between calls need sequences, and argument-order errors need permutations.",
  [BASE], [("call_submodel", BASE + ":call_submodel"), ("apply_and_forward", BASE + ":apply_and_forward"), ("make_dict", BASE + ":make_dict")],
  state=[("model parameters", "parameters currently set on the model", BASE), ("con_outputs", "selected constraint outputs", BASE)])

prop("C14", "Selecting a numeric backend follows a stack discipline",
  "After any sequence of selecting backends, nested scoped selections, exits (also by exceptions) and unsupported selections, the active backend is exactly the one a stack discipline prescribes, and every numeric function is the one of that backend. Selecting an unsupported backend leaves the active one unchanged, every library operation (building, evaluating, compiling, exporting, solving, also when it fails) leaves the backend as it found it, and functions evaluated under the numpy, jax and casadi backends give equal results.",
  ["histories"],
  "all well-nested histories up to depth 6 over {set, enter, exit, raise, refused set, re-entry of the same context} on the three backends",
  "Tests use the context manager once from the default backend; nesting and exceptions are not covered.",
  ["numpy/__init__.py"], [("use_backend", "numpy/__init__.py:use_backend"), ("set_backend", "numpy/__init__.py:set_backend")],
  state=[("active backend", "module-wide current backend", "numpy/__init__.py")])

prop("C15", "A batched map is the elementwise function, in order",
  "For every batch size, argument selection and argument form (scalars, vectors, sparse matrices, dictionaries, parameter sets), mapping a function over a batch returns, at position i, exactly the function's value on the i-th elements of the mapped arguments and the unmapped arguments as given. This holds for every map strategy (serial, threaded, vectorised), any number of workers, and the batched forms of the models.",
  ["inputs", "configurations"],
  "batch sizes 1..17, all subsets of mapped arguments, all strategies and worker counts, argument shapes",
  "Tests map one function over one batch; remainders of a batch divided over workers and mapped-argument subsets are where order errors hide.",
  ["numpy/utils.py", BASE], [("cmap", "numpy/utils.py:cmap"), ("lmap", "numpy/utils.py:lmap"), ("batched_forward", BASE + ":batched_forward")])

prop("C16", "A compiled library is complete, and belongs to the function that was asked for",
  "Whatever happened before - other functions compiled in the same directory, a compiler failing or a process killed at any point, another process compiling the same or another function at the same time - a loaded compiled function computes what the requested function computes, never another one and never from a partial file. After any such fault a later attempt succeeds, a compiler failure is reported, and an already compiled library is reused.",
  ["crash_points", "schedules", "histories"],
  "kill/failure at every compile step (before, during partial output, after output, before/after publish), all interleavings of two compiling processes at the compile steps, all orders of 2-3 functions",
  "Tests compile once in an empty directory; crash points and concurrent runs are not exercised.",
  ["numpy/utils.py", "numpy/__init__.py"], [("compile and load", "numpy/utils.py:casadi compile")],
  state=[("cache directory", "compiled libraries named by content", "numpy/utils.py")])

prop("C17", "Iteration logs tell the true course of every solve",
  "Whatever sequence of solver callbacks occurs (regular steps, restoration phases repeating an iteration number, failures, no callbacks, several solves on one problem, several problems at once, any directory name), the logs of a finished solve contain, for each sampled iteration and the last one, one record of the unscaled variables and mesh of that iterate and of the constraint values the solver saw, and a complete history, ordered by iteration, of the metrics the solver reported. A failing solve is reported and leaves the combined logs of the last finished one, and the logging of one problem never touches that of another.",
  ["histories", "fault_sequences"],
  "all callback sequences up to length 4 over {regular, restoration, repeated iteration, end} x {success, failure, no callbacks} x 1..3 solves x sampling settings",
  "Tests check that a file exists after one successful solve; wrong rows need restorations, failures or re-solves.",
  [OCP, NLP], [("intermediate", OCP + ":intermediate"), ("_log", OCP + ":_log"), ("_log_final_iter", OCP + ":_log_final_iter")],
  state=[("iteration files", "one csv per logged iteration", OCP), ("metrics history", "list of metrics", OCP)])

prop("C18", "Solving hands the solver the problem as stated and returns its answer",
  "For every problem and scaling, the solver receives the scaled initial guess, scaled bounds on variables and constraints, all callbacks, every option given and no other overriding the user's, and the result is returned in unscaled variables together with the solver's status and multipliers. This holds for repeated solves, warm starts (multipliers of a previous solve handed back as they came), feasibility solves (the same constraints with a zero objective) and default guesses, and leaves the problem's definition unchanged. An option the solver does not know is reported, and not used again.",
  ["configurations", "histories"],
  "all combinations of scaling, initial guess, options, Hessian mode, warm-start multipliers, 1..3 solves against a recording solver",
  "Tests run one successful solve and look at the objective; what was actually handed to the solver is not observed.",
  [NLP, OCP], [("solve", NLP + ":NLPFunction.solve"), ("solve with logging", OCP + ":solve")], observe=["arguments of the solver"])

prop("C19", "The mesh covers the requested range and the stages sit where the scheme says",
  "For every way to state the mesh (interval count, explicit interval points, start and end), the stage positions start and end at the stated ends, increase strictly, place each interval's inner stages at the scheme's collocation points, and share the end stage of neighbouring intervals. Non-increasing, wrongly sized or not normalised interval points are refused, and the physical mesh is the normalised mesh times its scale.",
  ["configurations", "inputs"],
  "all interval-point sets over a grid, interval counts 1..5, all schemes, fixed and scaled mesh, all malformed variants",
  "Tests use a uniform mesh with one scheme; non-uniform interval lengths and validation of malformed points are hardly sampled.",
  [OCP, "optimal_control/fixed_mesh_ocp.py"], [("set_normalized_mesh", OCP + ":set_normalized_mesh"), ("fixed mesh", "optimal_control/fixed_mesh_ocp.py")])

prop("C20", "Track geometry is consistent along the whole lap",
  "For every track, the distance is the arc length of the centre line from zero, the heading is the initial heading plus the running integral of the curvature without jumps of full turns, and the curvature is the rate of change of direction of the centre line along the distance. The heading, curvature and left/right widths obtained at any distance are the linear interpolation of the track data, with the end values beyond the ends; turning, shifting, mirroring, stretching and reversing a track change exactly what they must. File columns are found by name whatever their order, and a file without a needed column is refused.",
  ["inputs"],
  "generated closed and open tracks over a shape grid, all query distances on a grid including ends, wrap-around and beyond, all track files in the repository",
  "Tests query one track at a few points; closure and angle wrap depend on the shape of the track and the query position.",
  ["models/tracks.py"], [("tracks", "models/tracks.py")])

prop("C21", "A simulation is set up for the track and vehicle it was given",
  "For every laptime or drone simulation configuration, the problem's mesh, bounds, boundary conditions, scales, cyclicity, initial guess and objective (total time plus the declared penalty on the steering) are those the configuration states, with heading, curvature and widths sampled from the track at the stage positions. Restating the track, its widths or the mesh of an existing simulation gives the same problem as building it that way, later bound statements win over earlier ones and boundary conditions over all. A missing track is refused, and stating a missing track file later has no effect on the problem.",
  ["configurations", "histories"],
  "all configuration combinations over a small grid, all sequences of up to 3 track switches and penalty settings, several backends",
  "Tests set up one simulation; switching and penalties are not compared with an independent statement of the problem.",
  ["simulations/laptime_simulation.py", "simulations/drone_simulation.py"],
  [("LaptimeSimulation", "simulations/laptime_simulation.py"), ("DroneSimulation", "simulations/drone_simulation.py")])

prop("C22", "Configurations, models and problems do not leak into each other",
  "Building, reconfiguring, evaluating or solving one model or problem never changes the configuration, parameters or arrays the caller passed in, nor any other model or problem (each problem with its own model), nor the defaults of later ones. Building twice from the same configuration gives the same problem, in any order and any number of times.",
  ["histories", "configurations"],
  "all sequences up to length 4 over {build with config i, reconfigure, evaluate, mutate own copy} with a snapshot of all caller objects and defaults compared after every step",
  "Tests build one object per configuration; leaks show only when objects or argument lists are reused.",
  [OCP, "optimal_control/config.py", BASE, "models/composition.py", "simulations/laptime_simulation.py"],
  [("config classes", "optimal_control/config.py"), ("defaults", BASE + ":get_default_params")],
  state=[("caller objects", "configs, params and arrays passed in", "optimal_control/config.py")])

prop("C23", "The symbolic numpy layer computes what numpy computes",
  "Every function of the numeric layer that is supported for symbolic inputs returns, evaluated at numbers, the value and shape numpy returns for the same call (one-dimensional arrays being column vectors), for every supported argument combination. Operations mixing symbolic and numeric arguments give the same values as all-numeric ones, purely numeric calls are numpy's own, and calls with mismatching shapes, axes out of range or features the layer lacks raise instead of returning something else.",
  ["inputs", "programs"],
  "all functions of the layer x argument combinations (axes, orders, shifts, shapes up to 3x3, option strings) x value grids including ties, negatives and zeros",
  "The layer is vendored without tests; the models only exercise a fraction with fixed shapes.",
  ["numpy/casadi_numpy/array.py", "numpy/casadi_numpy/logicals.py", "numpy/casadi_numpy/spacing.py", "numpy/casadi_numpy/linalg.py", "numpy/casadi_numpy/calculus.py", "numpy/__init__.py"],
  [("casadi_numpy", "numpy/casadi_numpy")])

prop("C24", "Vehicle, tire, aero and kinematic models obey their stated equations",
  "For every parameter set and operating point in the models' range, the outputs of the vehicle, tire, aero, drone and track-kinematics models equal the documented equations evaluated independently: force and moment balances, load transfer, slip definitions, tire formulae (without turn slip and pressure effects), aerodynamic forces, drone dynamics and the change from time to distance as independent variable. Mirror-symmetric operating points with symmetric parameters give mirror-symmetric results.",
  ["inputs"],
  "grid of operating points and parameters per model that separates every term; all backends",
  "Tests check a few values or only that evaluation works; a sign or a swapped wheel in one term is visible only off the symmetric straight-line point.",
  ["models/vehicles/simple_vehicle.py", "models/tires/perantoni.py", "models/tires/pacejka.py", "models/aero/aero.py", "models/kinematics.py", "models/simple_vehicle_on_track.py", "models/drone_model.py"],
  [("vehicle", "models/vehicles/simple_vehicle.py"), ("tires", "models/tires"), ("aero", "models/aero/aero.py"), ("kinematics", "models/kinematics.py")])

prop("C25", "The steady-state model solver finds points of the model it was given",
  "The solver for single operating points poses exactly the stated problem: the variables bounded or fixed as last stated, the objective with the declared weights on named variables, and the model's dynamics, constraint outputs and residuals as constraints, with exact derivatives, in any scaling. Any history of stating bounds, scales and objective terms, with solves in between, gives the same problem as building it anew, and the returned point is in the model's units and names. Crossed bounds, unknown variables, non-positive scales and repeated objective names are refused without effect.",
  ["histories", "configurations"],
  "all sequences up to depth 3 over the solver's setters and evaluations for two models and the backends",
  "Tests run one solve; sequences and derivative exactness of the posed problem are not observed.",
  ["optimal_control/model_solver.py"], [("ModelSolver", "optimal_control/model_solver.py")])

prop("C26", "Exported code computes the same model",
  "For every model that can be exported, the generated code, compiled by a standard C compiler and called through its published interface, returns the values, argument order, names and sparsity of the model's own evaluation for all inputs and parameters, the parameters being passed as one flat vector in tree order. Exporting several functions or models, repeatedly and into the same directory, gives the same result for each, and neither a successful nor a failed export changes the model or the active backend.",
  ["programs", "inputs", "histories"],
  "all exportable models x submodel choices x input grids x export sequences of length up to 2",
  "Tests check that code generation runs; the generated code is not executed.",
  [BASE, "numpy/utils.py"], [("export", BASE + ":export")])

prop("C27", "Tire files are read completely and correctly",
  "For every well-formed tire property file, each numeric parameter in the file reaches the tire model with its value, regardless of order, spacing (blanks or tabs), comments, sections, number format and line endings, and nothing else is read as a parameter. A repeated parameter takes its last value, values that are no numbers are left out, and the smoothing constants the tire model needs are added.",
  ["inputs"],
  "all lines from a grammar (sections, comments, spacing, number formats, duplicates) in all combinations up to the bound, plus the files in the repository",
  "Tests read one file; the grammar of lines is not explored.",
  ["models/tires/utils.py", "models/tires/base.py"], [("file reader", "models/tires/utils.py")])

prop("C28", "Configurations are validated, and round-trip without loss",
  "Every simulation configuration that states an unknown variable, group, constraint output, scheme, scheme option, backend or field, crossed or malformed bounds, a boundary condition outside the stages, or malformed interval points is refused when stated or when the problem is built, and every well-formed one is accepted and held as stated. A configuration rebuilt from its dictionary form equals the original and builds the same problem, and building a problem changes neither the configuration nor what a second problem built from it is.",
  ["configurations"],
  "all single and double departures from a valid configuration over the malformed alphabet, all configurations of a grid for the round trip",
  "Tests state a few valid configurations; acceptance and refusal over the whole grid is not checked.",
  ["optimal_control/config.py"], [("config classes", "optimal_control/config.py")])


def main():
    import sys
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    sys.path.insert(0, HERE)
    checks, na = [], []
    built = {}
    for path in sorted(glob.glob(os.path.join(HERE, "mc/checks/c[0-9]*.py"))):
        name = os.path.basename(path)[:-3]
        src = open(path).read()
        # CHECK is a literal: evaluate only that assignment
        import ast
        for node in ast.parse(src).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "CHECK":
                built[name[:3].upper()] = eval(compile(ast.Expression(node.value), path, "eval"))
    for p in P:
        i = p["id"]
        if i in built:
            c = built[i]
            checks.append(dict(property=i, quick_cmd=f"bash run.sh {i}",
                               thorough_cmd=f"VERIF_TIER=thorough bash run.sh {i}",
                               evidence_file=f"evidence/{i}.json", technique=c["technique"], level=c["level"],
                               level_note=c["note"]))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
                       notes="No hooks in /repo: all checks drive the public API from outside."), f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not claimed")


NA = {}
if __name__ == "__main__":
    main()
