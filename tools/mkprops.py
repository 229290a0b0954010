"""Writes /verif/properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": tests, "anchors": a})
OA='paramz/core/observable_array.py'; OB='paramz/core/observable.py'; LD='paramz/core/lists_and_dicts.py'
PC='paramz/core/parameter_core.py'; PZ='paramz/parameterized.py'; PA='paramz/param.py'; UP='paramz/core/updateable.py'
IX='paramz/core/indexable.py'; IO='paramz/core/index_operations.py'; CO='paramz/core/constrainable.py'
PI='paramz/core/pickleable.py'; NA='paramz/core/nameable.py'; TR='paramz/transformations.py'; MO='paramz/model.py'
CA='paramz/caching.py'; OP='paramz/optimization/optimization.py'; SC='paramz/optimization/scg.py'; VO='paramz/optimization/verbose_optimization.py'
IN='paramz/__init__.py'

prop("C01","In-place writes to an observable array always notify its observers",
 "Whenever the contents of an observable array or parameter are changed through item assignment or any augmented-assignment operator the array type supports, the write is performed with the given operands and, after it has taken place, all observers of the array are notified. The notification does not depend on which elements, which values or how many elements were written, and none is sent before the write.",
 ["inputs","programs"],"every array class of the library, every mutating operator of numpy's array type, every index and operand",
 "Tests use a handful of operators on single arrays; augmented operators are excluded from coverage and mostly never executed.",
 [OA,PA],[("mutating operator overrides followed by notify","ObsAr.__setitem__, ObsAr.__i*__")],["observer callbacks of an ObsAr/Param"])
prop("C02","A notification calls exactly the eligible observers, in priority order",
 "A notification calls every registered observer exactly once, highest priority first and in registration order within one priority, handing it the notifying object and the originator (the notifying object itself when none is given). With a minimum priority it calls exactly the observers whose priority is strictly greater than it; while the object's updates are off it calls nobody.",
 ["inputs","histories"],"all sets of observers, priorities, thresholds and registration orders",
 "Tests register two or three observers with fixed priorities.",
 [OB,LD],[("dispatch loop with threshold","Observable.notify_observers"),("sorted insertion","ObserverList.add")],["order and arguments of callback calls"])
prop("C03","Observer registration and removal are exact and safe during dispatch",
 "Removing an observer removes every registration of that very object (or only those with the given callback) and no registration of any other object, even one that compares equal to it; changing a priority leaves the observer registered once with the new priority. Observers added or removed by a callback do not disturb the notification round in progress, and observers that no longer exist are never called.",
 ["histories","inputs"],"all sequences of add/remove/notify, including from inside callbacks, and observers of any type including arrays",
 "Tests remove observers with scalar identities outside of callbacks only.",
 [OB,LD],[("identity filtered removal","Observable.remove_observer, ObserverList.remove"),("weak references and flushing","ObserverList.flush/__iter__")],["set of registered observers"])
prop("C04","Changes travel upwards: children recompute first, then ancestors",
 "When a node of the hierarchy is updated, each of its children that is not entirely fixed is updated first, then the node recomputes itself, and only then does its parent hear about it; a change reported by a child is passed on to the parent, keeping the originator. These connections exist for every child however it got there (constructed, linked, copied or unpickled) and are removed when the child is unlinked.",
 ["histories","programs"],"all hierarchies and all ways of building them",
 "Tests look at counts of updates for two small hierarchies.",
 [PC,PZ,PA,UP],[("recursive trigger","OptimizationHandlable._trigger_params_changed"),("parent registered at the lowest priority","Parameterized.link_parameter/unlink_parameter, _setup_observers")],["order of parameters_changed calls"])
prop("C05","Switching updates off silences the whole hierarchy; switching on refreshes",
 "Setting the update switch on any node sets it for every node of the whole hierarchy and then requests one update; requesting an update does nothing while updates are off or while the node is still being constructed and otherwise performs it. Operations that switch updates off temporarily put the switch back to the state they found it in.",
 ["histories","programs"],"all hierarchies, nodes and sequences of switching and editing",
 "Tests toggle the switch on one model root.",
 [UP,PC,OB],[("flag set on all nodes by traversal from the root","Updateable.update_model"),("guarded trigger","Updateable.trigger_update"),("save/restore","OptimizationHandlable.randomize")],["update counts, update_model()"])
prop("C06","Linking a parameter keeps sizes, positions and parents consistent",
 "After linking, the parameter sits in the children list at the requested position (at the end without an index), knows its new parent and that position, the later siblings' positions have moved up by one, and the sizes of the new parent and all its ancestors have grown by the parameter's size. A parameter that belonged to another parent is unlinked there first; linking something that is already in the same hierarchy, or an object below itself, is refused with a hierarchy error before anything has been changed.",
 ["histories","inputs"],"all hierarchies and all sequences of link/unlink at all positions",
 "Tests build a few fixed hierarchies; insertion by index and the refusals are hardly exercised.",
 [PZ,PA],[("bookkeeping on attach","Parameterized.link_parameter")],["size, _parent_index_, parameters, HierarchyError"])
prop("C07","Unlinking removes exactly that parameter and leaves both sides consistent",
 "After unlinking, the parameter is gone from the children list, attributes and observers of its former parent, has no parent, keeps the constraints it had (in its own index space), and the sizes of the former parent and all its ancestors have shrunk by its size; the remaining hierarchy is reconnected from its root. Unlinking something that is not a child is refused with a hierarchy error and changes nothing.",
 ["histories"],"all hierarchies, depths and sequences of link/unlink",
 "Tests unlink a few parameters of depth one.",
 [PZ,IX],[("bookkeeping on detach","Parameterized.unlink_parameter"),("own copy of the index operations","Indexable._disconnect_parent")],["size, parameters, constraints of both sides"])
prop("C08","All parameters and gradients live once, in the root's arrays",
 "When a hierarchy is connected, every child's values and gradient become windows on its parent's arrays: consecutive, in child order, each as long as the child, the same window for values and gradient, down to the leaves, and the values the children held before are carried over. Every change of the hierarchy's structure, initialisation, copying and unpickling ends with such a reconnection from the root.",
 ["histories","inputs"],"all hierarchies, shapes and sequences of structure changes",
 "Tests compare a few arrays after fixed sequences.",
 [PC,PZ],[("slice bookkeeping and buffer rebinding","Parameterized._connect_parameters, OptimizationHandlable._propagate_param_grad")],["param_array, gradient of every node"])
prop("C09","Constraint indices stay attached to their parameters across moves",
 "Every index-valued operation of a node's constraint view translates between the node's own indices and the root's by exactly the node's offset, in both directions, and only sees indices of the node itself. Inserting a parameter first moves all indices at or behind its position up by its size and then adds its own constraints at that position; removing it drops the indices in its range and moves those behind down by its size.",
 ["histories","inputs"],"all nested views, offsets, index sets and link/unlink sequences",
 "Tests cover three properties on one ten element index.",
 [IO,IX,PZ],[("offset translation","ParameterIndexOperationsView"),("shifting","ParameterIndexOperations.shift_left/shift_right"),("offset of a node","Indexable._offset_for")],["constraints of every node"])
prop("C10","Constraining replaces the old constraint and moves values into the domain",
 "Constraining a parameter with a transformation first replaces its values by admissible ones for that transformation, removes every earlier constraint of exactly these parameters, records the new one for exactly these parameters and requests an update; constraining with the fixing token fixes; anything else is refused with an error before anything is changed. Unconstraining removes the given constraints, or all when none are given, for exactly these parameters, and returns the indices that were affected.",
 ["inputs","histories"],"all transformations, parameters, slices and earlier constraints",
 "Tests constrain a few parameters with two or three transformations.",
 [CO,IX],[("constrain/unconstrain","Constrainable.constrain, Constrainable.unconstrain, Indexable._add_to_index_operations/_remove_from_index_operations")],["constraints, values"])
prop("C11","Fixing and unfixing keep constraints and the root's mask in agreement",
 "Fixing keeps the constraints a parameter has, so that unfixing brings them back; the set of fixed parameters and the mask of free parameters used for optimisation agree after every fixing, unfixing, constraining, linking, unlinking, copying and unpickling, for the root and for every inner node. A mask entry is free exactly if its parameter is not fixed.",
 ["histories"],"all sequences of fix/unfix/constrain/link/unlink on all nodes",
 "Tests fix and unfix single parameters of a root.",
 [CO,IX,PC,PZ],[("mask maintenance","Constrainable._set_fixed/_set_unfixed/_ensure_fixes/_connect_fixes"),("callers","Constrainable.constrain_fixed/unconstrain_fixed, Indexable._remove_from_index_operations")],["optimizer_array size, _fixes_, constraints"])
prop("C12","Reading, writing and differentiating in optimiser space agree",
 "The optimiser's vector contains exactly the free parameters in order, each mapped by the inverse of its constraint; writing it puts every entry back through its constraint, leaves fixed parameters untouched and requests an update; the optimiser gradient multiplies the same entries by their constraint's gradient factor and is restricted to the same free entries. Computing the optimiser gradient does not alter the model's own gradient.",
 ["inputs","histories"],"all mixtures of constraints and fixed parameters, on the root and on inner nodes",
 "Tests check one or two models with few constraints.",
 [PC],[("three sibling loops over the constraints","OptimizationHandlable.optimizer_array getter and setter, _transform_gradients"),("dimension","_size_transformed")],["optimizer_array, param_array, gradient"])
prop("C13","The optimiser's view of the parameters is never stale",
 "With updates on, after any change of parameter values, constraints or structure made through the library, the next read of the optimiser's vector recomputes it from the current parameters: the remembered copy is marked current only by the read that has just computed it, and every such change marks it outdated before dependent recomputation runs. Unconstraining and restoring a pickled or copied model count as such changes.",
 ["histories"],"all interleavings of reads of the optimiser vector with edits",
 "Tests read it once per edit sequence.",
 [PC,CO,PI,IX],[("_optimizer_copy_transformed flag","OptimizationHandlable.optimizer_array, Parameterizable._parameters_changed_notification, Pickleable.__setstate__")],["optimizer_array"])
prop("C14","Objective evaluations use the given point and tolerate bounded failures",
 "Each objective or gradient evaluation requested by an optimiser first installs the given point and then evaluates objective and transformed gradient at that point. A numerical failure is tolerated (objective reported as infinite, gradient clipped to finite bounds) as long as the number of consecutive failures has not reached the allowed limit, after which it is raised; every success resets the count, and other exceptions always pass through.",
 ["inputs","fault_sequences"],"all sequences of failing and succeeding evaluations through the three entry points",
 "The failure branches are excluded from coverage and not executed.",
 [MO],[("three sibling wrappers","Model._objective, Model._grads, Model._objective_grads")],["values returned to the optimiser, exceptions"])
prop("C15","Optimising installs the optimum; restarts keep the best run of this call",
 "After optimising, the model's parameters are those of the optimum found and the run is recorded, in that order of success only; a fully fixed or empty model is left alone. Restarts keep, among the runs added by this very call, the one with the smallest objective; if every run failed the parameters found at the start are restored, and failures are raised unless the robust option is on.",
 ["histories","fault_sequences"],"all optimisers, numbers of restarts and patterns of failing restarts",
 "Tests use restarts that always succeed.",
 [MO],[("installing x_opt","Model.optimize"),("selection among new runs","Model.optimize_restarts")],["optimizer_array, optimization_runs"])
prop("C16","A gradient check restores the model and looks only at free parameters",
 "A completed gradient check leaves the model at the parameter values it had before, in terse and in verbose mode, perturbs only entries belonging to the requested parameter that are free, treats each direction symmetrically around the starting point, and reports success when there is nothing free to check. Checking any member of a hierarchy, or a group of members, is carried out by the root.",
 ["inputs","histories"],"all models, targets (root, nodes, slices, groups) and modes",
 "Tests look at the returned verdict only, and the group case fails on the supported numpy.",
 [MO,IX,'paramz/core/gradcheckable.py',PA],[("save, perturb, restore","Model._checkgrad"),("index of a target in the optimiser vector","Indexable._raveled_index_for_transformed/_raveled_index_for")],["optimizer_array before/after, verdict"])
prop("C17","A cached function never returns an outdated or foreign result",
 "A cached function returns a stored result only for the very same arguments (positional ones by position, keyword ones by name) and only if none of the arguments has reported a change since the result was computed; otherwise the function is evaluated with exactly the given arguments and its result is returned. Arguments that cannot be observed, forced keywords and a disabled cache lead to plain evaluation without storing; if the evaluation raises, everything stored is dropped and the exception is passed on.",
 ["histories","inputs"],"all call and change histories, argument combinations and exceptions",
 "Tests call one or two cached functions a few times.",
 [CA],[("cache id, change flags","Cacher.__call__, Cacher.combine_inputs, Cacher.on_cache_changed")],["results of cached calls vs the plain function"])
prop("C18","Caches stay within their limit and release their inputs",
 "A cache never holds more results than its limit: before a new result is stored beyond it, the oldest one is dropped with everything recorded about it. The cache listens to an input exactly while some stored result depends on it: it registers on first use, stops listening when the last such result is dropped, and stops listening to all inputs on a reset; disabling drops all stored results and the switch reaches every cached function of an object and every object of a hierarchy.",
 ["histories"],"all sequences of calls, evictions, resets and switching",
 "Tests look at a few evictions with a limit of two or three.",
 [CA,PC],[("eviction","Cacher.ensure_cache_length"),("registration","Cacher.add_to_cache, Cacher.reset"),("switches","FunctionCache, Parameterizable.enable_caching/disable_caching")],["observers of inputs, number of stored outputs"])
prop("C19","Pickling drops transient state and restoring rebuilds all of it",
 "Everything left out of a pickled object (observer list, caches, memory windows, mask of free parameters, optimiser copy, logger) is rebuilt or lazily recreated when it is restored, and everything else is kept; a restored hierarchy has fresh observers connected the standard way, its arrays and masks reconnected and its derived quantities recomputed. Array objects restore the array part and the attribute part from the same places they were saved to.",
 ["histories","programs"],"all objects of the library and all of their attributes",
 "Tests pickle a few objects and compare values and some attributes.",
 [PI,OA,PA,PZ,PC,IX,IO],[("memento with an ignore list","Pickleable.__getstate__/__setstate__"),("array memento","ObsAr.__reduce__/__setstate__")],["attributes after a round trip"])
prop("C20","A copy is independent of its original",
 "Copying a node yields a deep copy of its subtree that has no parent, shares no values, gradients, constraint indices or observers with the original, and is connected within itself and updated; the original, its parents and their observers are left as they were.",
 ["histories","programs"],"all nodes of all hierarchies",
 "Tests copy whole models and compare values.",
 [PI,PZ,PA,OA,IO],[("deepcopy with memo cutting parents and windows","Pickleable.copy, Parameterized.copy, Param.__deepcopy__"),("index copies","ParameterIndexOperations.__deepcopy__, ParameterIndexOperationsView.__deepcopy__")],["effects of editing the copy on the original"])
prop("C21","Sibling names are unique and attributes follow names",
 "Whenever a parameter is linked or renamed, a sibling with the same name is renamed by appending or counting up a numeric suffix until all names differ; every linked parameter whose printable name is free is reachable under it as an attribute, attributes that are not parameters are never overwritten or deleted, and the attribute of an unlinked or renamed parameter disappears.",
 ["histories","inputs"],"all sequences of link/rename/unlink and all names",
 "Tests use a few name clashes.",
 [PC,NA],[("name registry","Parameterizable._add_parameter_name/_remove_parameter_name/_name_changed, Nameable.name")],["parameter_names(), attribute access"])
prop("C22","Printable names are always valid identifiers",
 "Turning a name into its printable form either yields a valid Python identifier consisting of letters, digits and underscores, or raises a name error; no other character survives.",
 ["inputs"],"all strings",
 "Tests convert a handful of names.",
 [NA],[("replacement chain and final pattern","adjust_name_for_printing")],["adjust_name_for_printing"])
prop("C23","Every constraint maps every real number into its declared domain",
 "For each constraint transformation, the forward map sends every real optimiser value into the transformation's declared domain (non-negative, non-positive or within the bounds), the exponential maps without overflowing to infinity for finite input, and the initial values proposed for arbitrary starting values lie in that domain as well.",
 ["inputs"],"all real inputs and all bounds lower < upper",
 "Tests evaluate a few points.",
 [TR,'paramz/domains.py'],[("forward maps with clipping","Transformation.f, Transformation.initialize of all subclasses")],["f(x), initialize(x)"])
prop("C24","Inverse and gradient factor match each constraint's forward map",
 "For each constraint transformation, inside the numerically unclipped range, the inverse map undoes the forward map, and the gradient factor is the incoming gradient times the derivative of the forward map expressed at the constrained value; where a log-Jacobian is provided it is the logarithm of that derivative and its gradient is the derivative of that logarithm.",
 ["inputs"],"all transformations and all real inputs in the unclipped range",
 "Tests never evaluate several of the transformations.",
 [TR],[("per-class formulas","f, finv, gradfactor, log_jacobian, log_jacobian_grad")],["finv(f(x)), gradfactor"])
prop("C25","Equal constraints are one object",
 "Asking for the same transformation (same class and same bounds) while one exists yields the existing object, different bounds or classes never share an object, and this still holds for transformations restored from a pickle or created after a refused construction with invalid bounds.",
 ["histories","inputs"],"all sequences of constructing, dropping, pickling and refused constructions",
 "Tests construct a few transformations.",
 [TR],[("instance registry","Transformation.__new__, Logistic.__new__")],["identity of transformation objects"])
prop("C26","Every optimiser reports a complete, bounded and decodable result",
 "Each available optimiser hands the starting point, the objective callbacks, the iteration limit and the tolerances it supports to the underlying routine, and on return has set the optimum, the objective value at that optimum, the number of evaluations and a status text; every termination code the underlying routine can produce has a status text. Every advertised optimiser name selects the corresponding optimiser.",
 ["inputs","configurations"],"all optimisers, options and termination codes",
 "Tests run optimisers to ordinary convergence only.",
 [OP],[("wrappers","opt_tnc, opt_lbfgsb, opt_bfgs, opt_simplex, opt_SCG, Opt_Adadelta, RProp, Adam"),("registry","get_optimizer")],["attributes of the optimiser object"])
prop("C27","The built-in conjugate gradient optimiser terminates and never gets worse",
 "The scaled conjugate gradient routine performs at most the given number of iterations, moves to a new point only if the objective there is not worse than at the current one, returns the last accepted point together with a trace whose last entry is its objective value, and counts every evaluation of objective and gradient.",
 ["inputs"],"all objectives, starting points and limits",
 "Tests run it on one quadratic.",
 [SC],[("main loop","SCG")],["return values of SCG"])
prop("C28","Progress reporting neither alters nor outlives an optimisation",
 "With progress messages on, the reporter listens to the model from the start and is always removed when the optimisation ends, also when it ends by an exception, which is passed on; with messages off it does not touch the model at all. Reporting never changes the model's parameters.",
 ["fault_sequences","programs"],"all ways an optimisation can end",
 "Tests run with messages on for one successful optimisation.",
 [VO,MO],[("context manager","VerboseOptimization.__init__/__exit__")],["observers of the model after optimize"])
prop("C29","A traversal visits every node once and always leaves the tree traversable",
 "Traversing a hierarchy calls the visitor exactly once for every node below and including the start, each node before its children, passing on the given arguments; traversing upwards visits every ancestor and everything reachable from it except the starting node's own subtree. After a traversal, also one ended by an exception of the visitor, later traversals work as if it had not happened.",
 ["histories","fault_sequences"],"all hierarchies and visitors, including raising ones",
 "Tests traverse once with a visitor that never raises.",
 [PC],[("visited mark","Parameterizable.traverse/_traverse/traverse_parents")],["sequence of visited nodes"])
prop("C30","Operations on a group selected by pattern reach every member",
 "Constraining, fixing, unconstraining, unfixing and assigning on a group of parameters selected by pattern has the effect of the same operation on every member with the given arguments, and afterwards, each time, every ancestor of a member is updated, lower levels first, for operations that change values or transformations. Reading or assigning a part of the group by index addresses the flat concatenation of its members, whatever values they hold.",
 ["inputs","histories"],"all groups, operations, indices and repetitions",
 "Tests use a group once and with full slices.",
 [PA],[("delegation","ParamConcatenation")],["members' values and constraints, update counts"])
prop("C31","Assignments by name or index write into the existing parameters",
 "Assigning to a parameter's attribute name, to a name pattern or to an index of a node writes the value into the existing parameter memory (never replaces the parameter object) and leads to an update; the kinds of index accepted for reading are accepted for writing. Before the model is initialised such an assignment is refused with an error instead of being lost, and assigning to other attributes behaves as usual.",
 ["inputs","programs"],"all attribute names, patterns and index kinds",
 "Tests assign through a few slices.",
 [PZ],[("setattr/setitem overrides","Parameterized.__setattr__, Parameterized.__setitem__, Parameterized.__getitem__")],["identity of parameters, values, update counts"])
prop("C32","Construction ends with one initialisation, or a warning that it was skipped",
 "Constructing a node runs all constructors with updates suppressed and afterwards, exactly once, links up the hierarchy from its root (parents, memory, masks) and recomputes it; with initialisation switched off it instead warns and leaves the model marked as uninitialised until initialisation is requested. The switch itself is never passed to the constructors.",
 ["programs","configurations"],"all node classes, user subclasses and constructor arguments",
 "Tests construct a few classes.",
 [PZ,PC,UP],[("metaclass call","ParametersChangedMeta.__call__"),("initialisation","Parameterizable.initialize_parameter")],["parameters_changed counts, _model_initialized_"])
prop("C33","Optimisation converges to a minimum",
 "On a smooth objective the optimisers return a point at which the gradient is small or report that a limit was reached.",
 ["inputs"],"all smooth objectives","Tests use one quadratic.",[OP,SC,MO],[("scipy routines and SCG","paramz/optimization")])
prop("C34","Transformation round trips are accurate to floating point precision",
 "Writing back the optimiser vector just read changes parameter values by no more than a few units of relative floating point precision, for all magnitudes.",
 ["inputs"],"all magnitudes of parameter values","Tests compare a few values to two digits.",[TR,PC],[("clip limits","_lim_val, _log_lim_val")])
prop("C35","Parallel restarts give the same result as sequential ones",
 "For the same random draws, parallel restarts select the same optimum as sequential restarts.",
 ["schedules"],"all schedules of the worker pool","Tests run it once.",[MO],[("multiprocessing pool","Model.optimize_restarts")])
prop("C36","The gradient check accepts correct gradients and rejects wrong ones",
 "For an objective with correct gradients the check succeeds at points of moderate curvature, and for gradients wrong by more than the tolerance it fails.",
 ["inputs"],"all objectives and gradients","Tests use a few objectives.",[MO],[("three point estimate","Model._checkgrad")])
prop("C37","Looking at a model changes nothing",
 "Printing a model, a parameter, a group of parameters or a collection of properties as text or HTML, and asking for names, sizes, values, flags, flat indices or the properties of an index, leave everything as it was: no value, name, constraint, fixed mask, selection, observer or switch is stored, changed in place or removed, and nothing is recomputed or notified (a model's summary evaluates its objective, a flat name list without the fixed ones brings the mask of fixed values up to date, and nothing else).",
 ["inputs","histories"],"all models, parameters and groups in any state, all functions that only report",
 "Tests print a few models and do not compare the model before and after.",
 [PZ,PA,MO,PC,NA,IO,LD],[("listings","Parameterized.__str__, Param.__str__, Model.__str__, ParamConcatenation.__str__, _repr_html_"),("queries","parameter_names, hierarchy_name, properties_for, _raveled_index")],["values, names, constraints, observers before and after"])
prop("C38","Listings show every parameter's own value, index and constraints",
 "The text listing of a node has one line for every parameter below it, in hierarchy order, with that parameter's dotted name, its value (its shape if it has several entries) and, for every kind of property, the properties attached to it, in braces where they cover it only in part. The listing of a parameter, or of the selected part of it, has one line per element with that element's index, value and properties; a group lists its members one after the other with common column widths. Flat names name every element of every parameter in memory order, without the fixed ones unless they are asked for. A constraint prints with its own sign, a bounded one with both bounds; a model's summary states its name, objective, number of parameters, number of free parameters and update switch.",
 ["inputs"],"all hierarchies, shapes, selections and constraints",
 "Tests print a few small models and compare almost none of the text.",
 [PZ,PA,MO,PC,NA,TR,IO],[("node listing","Parameterized.__str__, _format_spec, get_property_string, _description_str"),("parameter listing","Param.__str__, _indices, _raveled_index"),("flat names","OptimizationHandlable.parameter_names_flat")],["printed text, parameter_names_flat"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
