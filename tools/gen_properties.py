#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})
B = "bayes_optim/"
prop("C01", "A point already evaluated is never proposed again",
     "For the optimizers that assume noise-free objectives and search the original space (all but NoisyBO and PCABO), every point returned by ask() differs from every point in the recorded history in at least one variable of any kind (real variables are compared up to floating-point closeness), whether it came from acquisition optimisation, the initial design or the random top-up. Candidates that are screened together never contain two equal points, and nothing alters a point between its screening and its return.",
     ["histories", "inputs"], "every history of told points and every candidate produced by any ask() path",
     "tests run a handful of seeds on small spaces and never look at whether a proposal repeats an earlier point; collisions need a nearly exhausted or discrete space",
     [B+"base.py", B+"bayes_opt.py"], [("pre_eval_check", B+"bayes_opt.py BO.pre_eval_check"), ("ask", B+"base.py BaseBO.ask"), ("create_DoE", B+"base.py BaseBO.create_DoE")],
     [("data", "the evaluated history", B+"base.py")], ["ask() return value"])
prop("C02", "Fixed variables keep exactly the requested value",
     "When ask() is given values for some variables, every returned point carries exactly those values in exactly those variables while the other variables come from a search over the remaining variables only, for single-point, batch, initial-design and top-up proposals alike. The acquisition function and the user's constraints are evaluated on the point completed with the same values.",
     ["inputs", "configurations"], "every search space, every subset of fixed variables and every proposal path",
     "one test fixes variables of one small space with one optimizer; placement errors need particular positions of the fixed variables, batches or the top-up path",
     [B+"base.py", B+"bayes_opt.py", B+"extension.py", B+"utils/utils.py"], [("fillin_fixed_value/partial_argument", B+"utils/utils.py"), ("arg_max_acquisition/create_DoE", B+"base.py")],
     observe=["ask(fixed=...) return value"])
prop("C03", "Generated points stay inside the declared domain",
     "Every point produced by sampling a search space, by constrained sampling and by each internal acquisition optimizer, and every proposal of the dimension-reducing optimizer, lies (up to floating-point rounding error) within the declared bounds of each real and integer variable and on a declared level of each categorical variable. Rounding a real variable to its declared precision never moves it outside its bounds, and proposals of the acquisition optimizers are rounded to that precision.",
     ["inputs", "configurations"], "every search space, every random draw and every mutation step",
     "violations need extreme draws (a mutation far outside the box, an upper-end integer, a scale transform); tests look at a few samples of a few spaces",
     [B+"search_space/search_space.py", B+"search_space/variable.py", B+"search_space/samplers.py", B+"acquisition/optim/__init__.py", B+"acquisition/optim/mies.py", B+"acquisition/optim/one_plus_one_cma_es.py", B+"utils/utils.py", B+"extension.py"],
     [("handle_box_constraint", B+"utils/utils.py"), ("_sample", B+"search_space/search_space.py"), ("_mutate_*", B+"acquisition/optim/mies.py"), ("_rproposal_*", B+"search_space/samplers.py")],
     observe=["SearchSpace.sample()", "argmax_restart()", "ask()"])
prop("C04", "Only feasible points are proposed under constraints",
     "When constraints are supplied, every point drawn for the initial design or top-up and every candidate returned by the acquisition optimizer satisfies them: each inequality value is at most zero and each equality value is zero within the documented tolerance (0.01 for sampling, 0.1 for acquisition search). The tested point is the returned point, the user's equality and inequality functions are never exchanged or dropped on the way, and an exception raised by a constraint surfaces as a constraint-evaluation error.",
     ["inputs", "configurations"], "every constraint function, every sampled or optimised candidate",
     "tests use two or three easy constraints; a violation needs a candidate close to the boundary or a failing constraint on one particular path",
     [B+"search_space/search_space.py", B+"acquisition/optim/__init__.py", B+"base.py", B+"utils/utils.py", B+"search_space/samplers.py"],
     [("SearchSpace.sample filter", B+"search_space/search_space.py"), ("argmax_restart feasibility test", B+"acquisition/optim/__init__.py"), ("dynamic_penalty", B+"utils/utils.py")],
     observe=["SearchSpace.sample(h=, g=)", "argmax_restart()", "ask()"])
prop("C05", "Maximisation is the exact mirror image of minimisation",
     "Every place that ranks, compares, thresholds or penalises objective or acquisition values follows the declared direction: the best recorded value, the target test, the improvement threshold, the surrogate prediction and gradient seen by acquisition functions, the point weights of the dimension reduction, the comparisons and selections of the internal optimizers, and the sign of constraint penalties. A lower acquisition value is never preferred over a higher one, and a better predicted objective never lowers an acquisition value.",
     ["inputs", "configurations"], "every objective value and both optimisation directions, for every class that ranks values",
     "almost all tests minimise and only check that a run completes; a wrong direction still returns a point",
     [B+"_base.py", B+"base.py", B+"bayes_opt.py", B+"mobo.py", B+"extension.py", B+"acquisition/acquisition_fun.py", B+"acquisition/optim/__init__.py", B+"acquisition/optim/mies.py", B+"acquisition/optim/one_plus_one_cma_es.py", B+"utils/utils.py"],
     [("_get_best/_compare", B+"_base.py"), ("plugin/_predict/_gradient", B+"acquisition/acquisition_fun.py"), ("_better/select", B+"acquisition/optim")],
     observe=["xopt", "check_stop()", "acquisition values"])
prop("C06", "Evaluations and iterations are counted exactly",
     "Each point told outside a warm start adds exactly one to the evaluation count per objective value, including points whose evaluation failed, and each such tell adds exactly one iteration; warm-start data adds neither, in every optimizer class, and a point told once is recorded with one evaluation of its own. run() begins no further step once the evaluation budget is used up or the target is reached, and the internal optimizers count every evaluation they make and begin no further step once their own budget is used up.",
     ["histories", "inputs"], "every sequence of tells, with failed evaluations and warm starts, in every optimizer class",
     "tests never tell failing values with a budget, and check the counter for one class only",
     [B+"_base.py", B+"base.py", B+"mobo.py", B+"extension.py", B+"acquisition/optim/mies.py", B+"acquisition/optim/one_plus_one_cma_es.py"],
     [("tell", B+"base.py, mobo.py, extension.py"), ("check_stop/run", B+"_base.py")],
     [("eval_count", "evaluations spent", B+"_base.py"), ("iter_count", "iterations done", B+"_base.py")], ["eval_count", "iter_count", "run()"])
prop("C07", "Failed evaluations never enter the history",
     "A told point any of whose objective values is NaN or infinite is left out of the history, of the data the surrogate is trained on and of the incumbent, in every optimizer class and in warm starts, while the valid points told together with it are all kept.",
     ["inputs", "histories", "fault_sequences"], "every pattern of NaN and infinite values in every batch",
     "tests tell at most one failing value in a single-objective run",
     [B+"base.py", B+"mobo.py", B+"extension.py"], [("post_eval_check", B+"base.py BaseBO.post_eval_check"), ("tell", B+"base.py, mobo.py, extension.py")],
     [("data", "the evaluated history", B+"base.py")], ["data", "xopt"])
prop("C08", "The recorded history is append-only and correctly paired",
     "After tell(X, y) the history is the previous history, unchanged and in order, followed by the valid told points in the order given, each with its own value from y; no other operation adds, drops, reorders or rewrites history. Evaluating a batch returns the values in the order of the points whatever the execution mode, and the surrogate is retrained on the whole history with each point paired to its own (standardised) value.",
     ["histories", "inputs", "schedules"], "every sequence of asks and tells, every batch size and execution mode",
     "tests check lengths, not which value belongs to which point, and never the parallel modes",
     [B+"_base.py", B+"base.py", B+"mobo.py", B+"extension.py"], [("tell", B+"base.py, mobo.py, extension.py"), ("evaluate", B+"_base.py, mobo.py"), ("update_model", B+"base.py, mobo.py, extension.py")],
     [("data", "the evaluated history", B+"base.py")], ["data", "data_file"])
prop("C09", "The incumbent is the best point of the whole history",
     "At any time xopt, recommend() and the result of run() are the best recorded point(s) of the current whole history together with that very point's value - the non-dominated set for multi-objective problems - and never a stale, cached or partial answer. While nothing has been told yet recommend() raises its documented error.",
     ["histories"], "every history of tells, including after load and after failed batches",
     "tests only look at xopt once, at the end of a short run",
     [B+"_base.py", B+"extension.py", B+"mobo.py", B+"base.py", B+"__init__.py"], [("xopt", B+"_base.py, extension.py, mobo.py"), ("recommend/run", B+"_base.py")], observe=["xopt", "recommend()", "run()"])
prop("C10", "Saving never damages the optimizer and loading restores it",
     "save() leaves the live optimizer exactly as it was, including its history and logger, on every exit including a failing dump or write. load() gives back an optimizer whose history, logger settings and constraint wrappers are those of the saved one: every part that is encoded when saving is decoded by its inverse when loading.",
     ["crash_points", "histories"], "every point at which serialisation can fail, with or without history and constraints",
     "the tests save successfully once; none makes the dump fail or compares the logger",
     [B+"base.py", B+"utils/logger.py"], [("save/load", B+"base.py BaseBO"), ("dump_logger/load_logger/get_logger", B+"utils/logger.py")],
     [("data, logger", "temporarily encoded while dumping", B+"base.py")], ["data and logger after save()", "load()"])
prop("C11", "Randomness is governed by the user's seed alone",
     "The random generator is re-seeded only with a seed the user supplied for that object and only when it is supplied; creating, slicing, combining or sampling spaces and running the internal optimizers without a seed never re-seeds it. No result depends on wall-clock time, process identity, unseeded private generators or the iteration order of sets.",
     ["configurations", "schedules"], "every program that fixes a seed and builds spaces and optimizers in any order",
     "reproducibility across processes and hash seeds cannot be seen in one run; tests never compare two runs",
     [B+"_base.py", B+"search_space/search_space.py", B+"search_space/node.py", B+"acquisition/optim/__init__.py", B+"acquisition/optim/one_plus_one_cma_es.py"],
     [("random_seed setters", B+"_base.py, search_space.py, one_plus_one_cma_es.py"), ("sampling", B+"search_space, acquisition/optim")], observe=["np.random state", "ask() sequence"])
prop("C12", "Caller-owned objects and other instances are never modified",
     "Constructing or using an optimizer, a surrogate, a space or a solution never modifies dictionaries, lists, arrays or variables the caller passed in, and no two instances share mutable settings through default arguments or stored references. Binary operators and queries on spaces and solutions leave their operands unchanged.",
     ["inputs", "histories", "programs"], "every program that reuses an argument object or creates several instances",
     "tests build each object once from fresh arguments and never look at the argument afterwards",
     [B+"base.py", B+"bayes_opt.py", B+"extension.py", B+"search_space/search_space.py", B+"solution.py"],
     [("acquisition_par handling", B+"base.py, bayes_opt.py"), ("space operators", B+"search_space/search_space.py")], observe=["argument objects after the call"])
prop("C13", "A search space's derived views always match its variables",
     "After any construction, in-place change or combination of a search space, its dimension, names, types, bounds, per-type index sets and masks, categorical levels and space class describe exactly the current variables. Every variable belongs to exactly one per-type index set, and the categorical set is exactly the non-real, non-integer ones.",
     ["histories", "inputs"], "every sequence of in-place and functional operations on spaces of any mix of variable types",
     "tests apply single operations to a few small spaces and rarely look at the masks or the class afterwards",
     [B+"search_space/search_space.py"], [("_set_data/_set_index/_set_levels/__set_type", B+"search_space/search_space.py")],
     [("data", "list of variables", B+"search_space/search_space.py")], ["dim, var_name, var_type, bounds, *_id, *_mask, levels, type(space)"])
prop("C14", "Space descriptions and lookup tables are complete",
     "A dictionary/JSON description yields exactly the declared variables: every documented type code creates its own variable type with the declared range, default, precision, scale and step, repeated N times, without changing the description; an unknown or malformed entry is rejected instead of silently dropped. Every scale has a mutually inverse transform pair, and every acquisition optimizer that can be selected has a budget default and an implementation.",
     ["inputs", "configurations"], "every description, every scale, every selectable optimizer",
     "tests load one JSON file; defaults, N>1 with step, and malformed entries are never exercised",
     [B+"search_space/search_space.py", B+"search_space/variable.py", B+"acquisition/optim/option.py", B+"acquisition/optim/__init__.py", B+"base.py"],
     [("from_dict", B+"search_space/search_space.py"), ("TRANS/INV_TRANS", B+"search_space/variable.py"), ("default_AQ_max_FEs", B+"acquisition/optim/option.py")], observe=["SearchSpace.from_dict/from_json", "Real(scale=...)"])
prop("C15", "Variable equality and hashing agree",
     "Two variables that compare equal have equal hashes, and equality distinguishes every declared trait that changes the variable's domain or encoding: type, name, bounds, default, and precision and scale (real) or step (integer). Space equality therefore holds exactly when the two spaces consist of equal variables.",
     ["inputs"], "every pair of variables and spaces",
     "tests compare two or three variables", [B+"search_space/variable.py", B+"search_space/search_space.py"], [("__eq__/__hash__", B+"search_space/variable.py"), ("SearchSpace.__eq__", B+"search_space/search_space.py")], observe=["==, hash, set membership"])
prop("C16", "Solution rows keep their own attributes",
     "Selecting, concatenating or replicating solutions keeps fitness, evaluation count and index aligned row by row with the points and the names aligned with the columns, for positive and negative integers, slices, masks and index lists. Concatenation keeps the left operand's rows first and refuses operands with different dimension, objectives or variable names.",
     ["inputs"], "every indexing expression and every pair of solutions", "tests index with a few positive indices",
     [B+"solution.py"], [("__getitem__/__add__/__mul__/from_dict/to_dict", B+"solution.py")], observe=["Solution[...]", "Solution + Solution"])
prop("C17", "A surrogate is used only when fitted and on one scale",
     "A surrogate reports being fitted only after a fit has completed, and acquisition-based proposals are made only from a fitted surrogate - otherwise the initial design is used. The improvement threshold handed to acquisition functions is on the same standardised scale as the values the surrogate was trained on, and the predictive variance handed out is never negative. A refit that does not complete leaves the surrogate reporting that it is not fitted.",
     ["histories", "crash_points"], "every history including a fit that raises midway", "tests never let a fit fail and never compare scales",
     [B+"surrogate/random_forest.py", B+"surrogate/gaussian_process/gpr.py", B+"surrogate/gaussian_process/__init__.py", B+"base.py", B+"extension.py", B+"bayes_opt.py"],
     [("is_fitted", B+"surrogate"), ("update_model", B+"base.py, extension.py"), ("ask guard", B+"base.py")], [("is_fitted", "fit completed", B+"surrogate")], ["model.is_fitted", "ask()"])
prop("C18", "Every search and sampling loop terminates within its budget",
     "Each loop that is not a plain traversal of a finite collection has an exit that is certain to be reached: the resampling loop of the initial design is bounded, the internal optimizers stop once their evaluation budget is spent, restarts are limited by the requested number, the patience and what is left of the budget, and each iteration makes progress towards the exit on every path.",
     ["inputs", "histories"], "every space, objective and constraint, including degenerate ones that never yield a valid or better point",
     "a test that hangs needs the degenerate input; the suite has none", [B+"_base.py", B+"base.py", B+"acquisition/optim/__init__.py", B+"acquisition/optim/mies.py", B+"acquisition/optim/one_plus_one_cma_es.py", B+"surrogate/gaussian_process/gpr.py"],
     [("loop counters and stop criteria", B+"base.py, acquisition/optim")], observe=["ask()", "argmax_restart()", "run()"])
prop("C19", "All optimizer variants honour one ask/tell contract",
     "Every optimizer class can be used wherever the base interface is: its ask and tell accept the base arguments, ask yields the requested number of points or raises its documented error, and step, warm start and the multi-point entry point work through overridden methods with the arguments those methods accept.",
     ["programs", "configurations"], "every optimizer class and every call the shared driver makes on it", "only some class/argument combinations are tested",
     [B+"_base.py", B+"base.py", B+"bayes_opt.py", B+"extension.py", B+"mobo.py"], [("ask/tell/step/evaluate", B+"*.py")], observe=["ask()", "tell()", "warm_data"])
prop("C20", "Acquisition gradients are the derivatives of the values",
     "For every acquisition function and every point where no numerical fallback is taken, the returned gradient is the exact derivative of the returned value, expressed through the gradients of the surrogate's mean and variance.",
     ["inputs"], "every model prediction, plug-in value and acquisition parameter", "no test compares gradients with values",
     [B+"acquisition/acquisition_fun.py"], [("__call__(return_dx=True)", B+"acquisition/acquisition_fun.py")], observe=["acquisition(X, return_dx=True)"])
prop("C21", "Acquisition settings reach the acquisition function",
     "The acquisition function chosen by the user and every parameter given for it take effect in every proposal, single-point and batch; batch optimizers vary only the parameter they are documented to vary, and each candidate is optimised under its own criterion. The settings of the acquisition search (optimizer, evaluation budget, restarts, patience) reach every search.",
     ["configurations"], "every acquisition function, parameter setting and optimizer class", "tests check only that runs complete",
     [B+"base.py", B+"bayes_opt.py", B+"extension.py"], [("_create_acquisition/_batch_arg_max_acquisition", B+"base.py, bayes_opt.py, extension.py")], observe=["criterion objects built in ask()"])
prop("C22", "Conditional sub-spaces keep points, models and values together",
     "In conditional optimisation each proposed point comes from the optimizer of one sub-space, carries that branch's conditioning values and None for inactive variables, and its value is told back to that same sub-space optimizer with every active value intact, including zero and False. Copying or pruning a condition tree keeps exactly the requested nodes and their branch conditions.",
     ["inputs", "histories"], "every tree structure, every batch composition, every value", "one small conditional problem is tested",
     [B+"extension.py", B+"search_space/node.py", B+"search_space/search_space.py"], [("ConditionalBO.ask/tell", B+"extension.py"), ("Node.remove/get_all_path", B+"search_space/node.py")], observe=["ConditionalBO.ask/tell", "Node.remove"])
prop("C23", "Pareto dominance is applied correctly",
     "A point is excluded from the reported efficient set exactly when another recorded point is at least as good in every objective and strictly better in one, each objective judged in its own declared direction; of several recorded points with equal objective values one representative is reported.",
     ["inputs"], "every set of objective vectors and every direction vector", "tests use one fixed set",
     [B+"mobo.py", B+"utils/multi_objective/pareto.py"], [("is_non_dominated", B+"utils/multi_objective/pareto.py"), ("BaseMOBO.y/xopt", B+"mobo.py")], observe=["MOBO.xopt"])
# ---- declined
prop("C30", "The GP likelihood, its gradient and kernel derivatives are exact",
     "The Gaussian-process log-likelihood equals its closed form, its reported gradient is its derivative, and the predictive mean and variance are those of the fitted kernel.",
     ["inputs"], "every data set and hyper-parameter", "tests compare a few predictions with tolerance",
     [B+"surrogate/gaussian_process/gpr.py", B+"surrogate/gaussian_process/kernel.py"], [("log_likelihood_*", B+"surrogate/gaussian_process/gpr.py")])
prop("C31", "Hypervolume and expected hypervolume improvement are exact",
     "The hypervolume indicator and the expected hypervolume improvement equal the measures they are defined as, for any front and reference point.",
     ["inputs"], "every front, reference point and prediction", "tests sample a few fronts",
     [B+"utils/multi_objective/hypervolume.py", B+"multi_objective/analytic.py", B+"utils/multi_objective/box_decompositions/non_dominated.py"], [("Hypervolume.compute/EHVI.forward", B+"utils/multi_objective, multi_objective")])
prop("C32", "The optimizer converges on well-behaved problems",
     "On smooth, noise-free problems the incumbent improves towards the optimum as the budget grows.",
     ["inputs"], "every smooth objective", "tests run one seed with a loose threshold", [B+"base.py"], [("ask/tell loop", B+"base.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
