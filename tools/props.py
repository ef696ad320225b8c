TODO = "planned, its check is not built yet"
prop("C01", "Backward dependencies include everything that affects a value",
  "For every function and every place at every program point, the reported backward dependencies contain every instruction and every argument whose result, taken branch or initial value can change the value of the place there in some execution. This covers data flow through assignments, fields, references, boxes, enums, closures and calls (with calls judged by their signature), and control flow through every enclosing branch.",
  ["programs", "inputs"], "all functions that type-check, all executions on all inputs, all places and program points",
  "The slicing tests compare about 100 fixed programs with fixed expected highlights; soundness quantifies over all programs, and a missed dependency in an untested combination of features passes them all.",
  [LIB+"infoflow/analysis.rs", LIB+"infoflow/mutation.rs", LIB+"mir/placeinfo.rs", LIB+"mir/aliases.rs", LIB+"mir/utils.rs", LIB+"mir/engine.rs"],
  [("transfer function and dependency lookup", LIB+"infoflow/analysis.rs FlowAnalysis::transfer_function, deps_for"), ("modular mutations", LIB+"infoflow/mutation.rs ModularMutationVisitor"), ("alias analysis", LIB+"mir/aliases.rs Aliases::compute_loans")],
  ["FlowAnalysis::deps_for on FlowResults::state_at", "compute_dependencies(Backward)"],
  technique="property-based testing: generated Rust programs, noninterference oracle by perturbing executions in a MIR interpreter, shrinking",
  note="Every difference that a perturbation of one instruction, branch, argument or call effect makes to an observed place must be explained. Trusts the interpreter (which executes the analysed MIR itself) and rustc. Out of scope: interior mutability, raw pointers, user destructors, inputs with references nested more than two levels.")

prop("C02", "Forward dependencies include everything that a value affects",
  "For every function, if changing what an instruction produces (or an argument holds) changes what another instruction computes, writes through its arguments or branches on in some execution, then the forward dependencies of that target contain that other instruction.",
  ["programs", "inputs"], "all functions that type-check, all executions on all inputs, all targets that an instruction assigns and all arguments",
  "Forward slices are computed by a second pass over the results that the backward tests never exercise, and the tests for it are a handful of fixed programs.",
  [LIB+"infoflow/dependencies.rs", LIB+"infoflow/analysis.rs", LIB+"infoflow/mutation.rs"],
  [("forward dependency visitor", LIB+"infoflow/dependencies.rs ForwardDependencies / compute_dependencies"), ("modular mutations", LIB+"infoflow/mutation.rs ModularMutationVisitor")],
  ["compute_dependencies(Forward)"],
  technique="property-based testing: generated Rust programs, perturbed executions in a MIR interpreter against forward slices, shrinking",
  note="Instructions inside loops are not judged (a value there is the one of some iteration). Same scope as C01.")

prop("C03", "Dependencies do not include what is unrelated",
  "Code that never reads anything a second part of the function computes, takes as argument or branches on has none of that part's instructions or arguments among its dependencies, and forward slices of the second part contain nothing of the first: distinct fields, disjoint references, overwritten values, shared borrows and branches that do not control an instruction are kept apart. For functions without pointers, the dependencies at every place and point are exactly within what textbook flow-sensitive, field-sensitive dependence analysis gives.",
  ["programs"], "all functions that type-check",
  "Precision is what makes slices useful; a slicer that returns more can still pass all tests whose expected slice happens to be covered, and soundness checks never notice.",
  [LIB+"infoflow/analysis.rs", LIB+"mir/placeinfo.rs", LIB+"mir/aliases.rs", LIB+"infoflow/mutation.rs"],
  [("strong updates and control dependencies", LIB+"infoflow/analysis.rs FlowAnalysis::transfer_function"), ("conflicts, children, reachable values", LIB+"mir/placeinfo.rs PlaceInfo"), ("loan propagation", LIB+"mir/aliases.rs Aliases::compute_loans")],
  ["FlowAnalysis::deps_for", "compute_dependencies"],
  technique="property-based testing: generated two-part programs with one-way isolation, and a textbook dataflow model for pointer-free programs, shrinking",
  note="The textbook model gives an upper bound (writes to a part keep what a larger write brought) and a lower bound (every leaf on its own). Boxes are left out: by design every box may alias every other. References with the same lifetime are treated as one.")

prop("C04", "Aliases and reachable values cover all memory that executions reach",
  "Whenever an execution dereferences a place, the memory it arrives at (if it is a variable's, a box's, or was passed by the caller) is denoted by one of the aliases reported for that place. Everything that can be reached from a variable's value is within its reachable values, and everything that can be changed through it is within its mutably reachable values.",
  ["programs", "inputs"], "all functions that type-check, all executions on all inputs, all places at all program points",
  "The unit tests ask for the aliases of a handful of places; an alias that is lost for an unusual flow of lifetimes makes writes through references disappear from every slice, and no fixed set of programs covers the flows of lifetimes.",
  [LIB+"mir/aliases.rs", LIB+"mir/placeinfo.rs", LIB+"mir/utils.rs"],
  [("loan propagation", LIB+"mir/aliases.rs Aliases::compute_loans, aliases"), ("reachable values and pointers inside types", LIB+"mir/placeinfo.rs reachable_values, collect_loans; mir/utils.rs interior_pointers")],
  ["PlaceInfo::aliases", "PlaceInfo::reachable_values"],
  technique="property-based testing: generated Rust programs run in a MIR interpreter, memory actually reached against reported places, shrinking",
  note="Compared while the variable is live. The memory of a box counts as part of what owns the box. Same scope as C01.")

prop("C05", "Reported mutations cover every write and read of an instruction",
  "Every memory that an instruction writes in some execution (a call including everything its callee writes) is denoted by a place reported as mutated there, and every memory that it reads is denoted by one of the inputs reported there. A mutation reported as certain happens on every execution of the instruction and overwrites the whole place.",
  ["programs", "inputs"], "all functions that type-check, all executions on all inputs, all instructions",
  "Calls are approximated from signatures alone; that the approximation covers what the callee really does must hold for every type and every callee body, and the unit tests check one call.",
  [LIB+"infoflow/mutation.rs", LIB+"mir/placeinfo.rs", LIB+"mir/aliases.rs"],
  [("mutations of an instruction", LIB+"infoflow/mutation.rs ModularMutationVisitor::visit_assign, visit_terminator"), ("reachable values", LIB+"mir/placeinfo.rs PlaceInfo::reachable_values")],
  ["ModularMutationVisitor", "Mutation"],
  technique="property-based testing: generated Rust programs run in a MIR interpreter, recorded accesses against reported mutations, shrinking",
  note="A call that returns unit reports no inputs for its destination; nothing is read into it, so such reads are judged on the mutations of its arguments only.")

prop("C06", "Places, parts, conflicts, aliases and reachable values obey their laws",
  "The children of a place are exactly the places inside its value (through boxes, not references); the places it conflicts with are exactly those inside it or around it up to the nearest reference, and conflict is symmetric. A place is its own alias and only that unless behind a pointer; aliases and reachable values of a whole carry over to its parts; what is mutably reachable is reachable, and values without pointers reach only themselves. Every argument reports all places up to one reference deep, each under its own argument, and normalising a place keeps its meaning, is idempotent, and identifies all elements of an array.",
  ["programs"], "all functions that type-check, all places",
  "The unit tests ask for the children and conflicts of one struct; these relations are the vocabulary of every other result and must hold for any nesting of types, visibilities and lifetimes.",
  [LIB+"mir/placeinfo.rs", LIB+"mir/utils.rs", LIB+"mir/aliases.rs"],
  [("relations between places", LIB+"mir/placeinfo.rs PlaceInfo::children, conflicts, normalize, reachable_values, all_args"), ("field numbering", LIB+"mir/utils.rs correct_fields, visible_fields, interior_places")],
  ["PlaceInfo"],
  technique="property-based testing: laws between query results and definitions recomputed from types, on generated programs, shrinking",
  note="Trusts rustc's types and visibilities. Arrays are judged up to the index. Raw pointers are left out.")

prop("C07", "A function's result depends on its own code and its callees' signatures only",
  "In the default mode (and every mode with signature-only contexts), everything the library reports about a function is the same whatever the bodies of the functions it calls, whatever its variables are called, and however the source is laid out and whatever unrelated items stand around it.",
  ["programs", "inputs"], "all functions that type-check, all bodies of callees with the same signatures, all renamings and layouts",
  "Modularity is a relation between the results for two crates; each test analyses one crate, and a dependency on something outside of the signature changes no single expected slice.",
  [LIB+"infoflow/analysis.rs", LIB+"infoflow/mutation.rs", LIB+"infoflow/recursive.rs", LIB+"mir/placeinfo.rs", LIB+"mir/aliases.rs"],
  [("calls judged by their signature", LIB+"infoflow/mutation.rs ModularMutationVisitor"), ("recursion only in the recursive mode", LIB+"infoflow/recursive.rs FlowAnalysis::recurse_into_call")],
  ["FlowAnalysis::deps_for", "PlaceInfo::aliases", "compute_dependencies"],
  technique="metamorphic property-based testing: the same generated functions with other bodies of their callees, other names and another layout must give equal results, shrinking",
  note="Compared by MIR location and local, so the variants keep the shape of the function itself.")

prop("C08", "The evaluation modes mean what they say and only ever add dependencies",
  "Analysing without a mode is the same as analysing in the default one. At every place and point, ignoring mutability or treating pointers conservatively gives a superset of the dependencies of the more precise mode. When mutability is ignored everything reachable counts as mutable, and with conservative pointers all references to the same type that a function creates may point to the same things.",
  ["programs", "configurations"], "all functions that type-check, all combinations of modes",
  "Each mode has one test that samples one program; nothing compares modes with each other.",
  [LIB+"extensions.rs", LIB+"mir/aliases.rs", LIB+"mir/placeinfo.rs", LIB+"infoflow/analysis.rs"],
  [("modes", LIB+"extensions.rs EvalMode, is_extension_active"), ("conservative pointers", LIB+"mir/aliases.rs generate_conservative_constraints"), ("ignoring mutability", LIB+"mir/placeinfo.rs LoanCollector")],
  ["EVAL_MODE", "FlowAnalysis::deps_for", "PlaceInfo::aliases", "PlaceInfo::reachable_values"],
  technique="property-based testing: metamorphic relation between evaluation modes on generated programs, shrinking",
  note="Two distinct arguments' targets are never the same, by design, in any mode. Pointees that contain lifetimes are left out of the claim about conservative pointers.")

prop("C09", "Analysing callees' bodies is sound, and as precise as the callee's own result",
  "When calls are analysed by recursing into the bodies of local functions, dependencies still include every instruction, branch and argument that can change the value of a place in some execution. A function that only passes its arguments on to another one depends on every argument that the other one depends on, and neither its result nor anything behind its reference arguments depends on arguments that the other one does not use for it.",
  ["programs", "inputs"], "all functions that type-check, all executions, Recurse mode",
  "The handful of tests for this mode each use one callee of a few lines; translating the effects of arbitrary callees back to the call site is where places, types, visibility and several return paths combine.",
  [LIB+"infoflow/recursive.rs", LIB+"infoflow/analysis.rs"],
  [("effects of a call from its body", LIB+"infoflow/recursive.rs FlowAnalysis::recurse_into_call"), ("cache and stack of bodies", LIB+"infoflow/analysis.rs recurse_cache; infoflow/mod.rs BODY_STACK")],
  ["FlowAnalysis::deps_for with ContextMode::Recurse"],
  technique="property-based testing: generated programs, noninterference oracle with really executed callees, and wrappers compared with what they wrap, shrinking",
  note="Same scope as C01. The comparison with wrappers is for functions with one return whose references all have lifetimes of their own.")

prop("C10", "Results do not depend on what was asked or analysed before",
  "Analysing a function again, after analyses in other modes, of other functions, or of the same ones in another order or another compiler session, and asking the queries in another order, gives exactly the same dependencies, aliases, conflicts, reachable values and states.",
  ["programs", "histories"], "all functions that type-check, all orders of analyses and queries",
  "Every test analyses one function once in a fresh session, so caches and global state are never shared between two analyses.",
  [LIB+"infoflow/mod.rs", LIB+"infoflow/analysis.rs", LIB+"mir/placeinfo.rs", LIB+"mir/aliases.rs", LIB+"extensions.rs"],
  [("caches", LIB+"mir/placeinfo.rs reachable_cache, aliases_cache, conflicts_cache, normalized_cache"), ("global state", LIB+"infoflow/mod.rs BODY_STACK; extensions.rs EVAL_MODE")],
  ["compute_flow", "compute_dependencies", "PlaceInfo"],
  technique="property-based testing: random orders of analyses and queries over generated programs, equality of all answers, shrinking",
  note="Answers are compared by their printed form, with places in normal form.")

prop("C11", "Dependency queries: groups of targets, directions and duality agree",
  "The dependencies of a group of targets are the union of those of its members, each group is answered on its own and in order, and the two directions together are the union of both. Backward dependencies are those of the place at that point, and of an argument the argument itself. Something is a forward dependency of a target only if what it computes, writes or branches on has the target among its backward dependencies, and whatever a target location writes is among its own forward dependencies.",
  ["programs", "inputs"], "all functions that type-check, all groups of targets",
  "Tests ask for one target in one direction each.",
  [LIB+"infoflow/dependencies.rs"],
  [("dependency queries", LIB+"infoflow/dependencies.rs compute_dependencies"), ("forward visitor", LIB+"infoflow/dependencies.rs ForwardDependencies")],
  ["compute_dependencies"],
  technique="property-based testing: random groups of targets in generated programs, metamorphic relations between queries, shrinking",
  note="Forward dependencies are defined for targets that the instruction assigns; groups may contain any place.")

prop("C12", "The fixpoint engine computes what rustc's dataflow engine computes",
  "For every control-flow graph and every forward analysis whose effects are functions of the state before them, the state after each reachable instruction equals the one that rustc's own engine computes, loops included.",
  ["programs"], "all control-flow graphs, all forward analyses",
  "The tests only see the engine through slices; a wrong order of joins or a loop left too early shows only for particular graphs.",
  [LIB+"mir/engine.rs"],
  [("fixpoint", LIB+"mir/engine.rs iterate_to_fixpoint"), ("results", LIB+"mir/engine.rs AnalysisResults::state_at")],
  ["iterate_to_fixpoint", "AnalysisResults::state_at"],
  technique="property-based testing: differential against rustc_mir_dataflow with three kinds of analyses (one randomised) on generated programs, shrinking",
  note="Unreachable blocks are not compared. Trusts rustc's engine.")

prop("C13", "Slices as source ranges cover their dependencies, and only those",
  "The source ranges of a slice are disjoint, lie within the function, cover the source of every instruction and argument among the dependencies, and cover nothing else than these and the statements or branches that directly enclose them. The slices of several groups of targets come in the order of the groups, and simple statements of code unrelated to the targets are in none of the ranges.",
  ["programs"], "all functions that type-check, all groups of targets, all directions",
  "What users see are ranges; the tests check a fixed set of slices only in text form, where a lost group, overlapping ranges or a range too much in an untested combination of targets and direction stays unnoticed.",
  [LIB+"infoflow/dependencies.rs"],
  [("from dependencies to ranges", LIB+"infoflow/dependencies.rs compute_dependency_spans")],
  ["compute_dependency_spans"],
  technique="property-based testing: random groups of targets in generated functions, ranges against the source of the dependencies and against interleaved unrelated code, shrinking",
  note="What encloses an instruction is taken from rustc_utils' Spanner (a registry crate); instructions that stand for a whole block bring all of it.")

prop("C14", "The analysis of accepted code finishes without panicking",
  "For every function that rustc accepts, in every combination of modes, computing the flow and asking for the dependencies of any place, for groups of targets in any direction and for their source ranges ends with an answer: no panic, no crash of the process, no endless loop.",
  ["programs", "configurations"], "all functions that type-check, in all 8 combinations of modes",
  "Rust's surface is large (patterns, coroutines, dyn, generic associated types, unsized places, inline constants, slices, never types ...), its combinations larger, and the tests' programs are a few lines each.",
  [LIB+"infoflow/analysis.rs", LIB+"infoflow/mutation.rs", LIB+"infoflow/recursive.rs", LIB+"infoflow/dependencies.rs", LIB+"mir/aliases.rs", LIB+"mir/placeinfo.rs", LIB+"mir/utils.rs", LIB+"mir/engine.rs"],
  [("all of it", LIB+"infoflow/mod.rs compute_flow"), ("queries", LIB+"infoflow/dependencies.rs compute_dependencies")],
  ["compute_flow", "compute_dependencies", "compute_dependency_spans"],
  technique="fuzzing with a grammar of about 120 language features: random compositions that rustc accepts, all queries in all modes, with a supervisor for endless loops and crashes; shrinking",
  note="Functions that rustc rejects are out of scope. An endless loop is reported after 300 s on a batch that normally takes a few seconds.")

prop("C17", "The editor's commands answer about the right function, in the right mode",
  "`cargo flowistry spans FILE` lists the ranges of exactly the functions and closures written in that file, and `focus FILE LINE COLUMN` answers about the innermost one around the position: every place mentioned in it, with the ranges of its slice in both directions and of its direct influence within that slice, each range on one line without leading white space, computed in the requested modes. A position without a function or outside of the file, a file outside of the crate and a crate that does not compile are answered by an error of their own kind, never by a crash or by another function's answer.",
  ["programs", "inputs", "configurations"], "all crates, files and positions, all combinations of modes",
  "The plugin's Rust side has no tests; the extension's tests compare a few fixed selections in an editor that cannot run here.",
  [IDE+"plugin.rs", IDE+"focus/mod.rs", IDE+"focus/direct_influence.rs", IDE+"spans.rs"],
  [("command line, modes, errors", IDE+"plugin.rs FlowistryPlugin::run, FlowistryCallbacks::after_analysis"), ("focus", IDE+"focus/mod.rs focus"), ("direct influence", IDE+"focus/direct_influence.rs DirectInfluence"), ("spans", IDE+"spans.rs spans")],
  ["standard output and exit code of cargo flowistry"],
  technique="property-based testing of the built command-line tool: generated crates of several files, random positions and modes, answers against an independent selection of the function and the library's slices, shrinking",
  note="Functions generated by macros and closures in constants are not listed, by design of rustc_utils. Columns count characters.")

IFC = "crates/flowistry_ifc/src/"
prop("C16", "cargo ifc reports exactly the flows from secure into insecure values",
  "`cargo ifc` reports a pair of a secure and an insecure value of a function exactly when, as they are at the end of the function, the insecure one depends on all that the secure one depends on, each at the lines where the two are declared, and says once that there is nothing when there is nothing. This covers flows through assignments, references, calls, fields, tuples, closures without captures and branches, values of arguments and printed values, and functions that never return, unused declarations, constants and macros are no errors.",
  ["programs"], "all crates whose functions type-check",
  "There are no tests of it, only two examples.",
  [IFC+"analysis.rs"],
  [("finding the flows", IFC+"analysis.rs analyze"), ("what is secure", IFC+"analysis.rs implements_trait"), ("no issues found", IFC+"lib.rs IfcCallbacks::after_analysis")],
  ["standard error and exit code of cargo ifc"],
  technique="property-based testing of the built command-line tool: generated crates with flows known from a taint model of the generator, comparing all reported pairs, shrinking",
  note="Secrets are created at the top level of a function and never changed. What is written through a reference may or may not keep the old value's flows (the tool lets references depend on what they refer to). Parts of values count, but not what is behind references to anything but a secret itself.")

TS = "ide/src/"
prop("C18", "The editor shows the slices of exactly the selected places",
  "In focus mode, for any text, any places and slices in it and any selection inside of a body, the extension emphasizes exactly the places in the innermost body around the selection that lie within it (or else those that it cuts and the innermost one around it), their direct influence, and fades out exactly what is in the body but in none of their slices; nothing is highlighted when nothing is selected. Marking a selection keeps showing its slice wherever the cursor goes in that body until it is unmarked, and taking the slice selects exactly the slice's ranges.",
  ["inputs"], "all documents, answers of the tool and selections",
  "The extension's tests need a running VS Code with an installed tool, and sample a few selections in one short file each.",
  [TS+"focus.ts", TS+"range.ts", TS+"decorations.ts"],
  [("places under the selection", TS+"focus.ts FocusBodyState.find_slice_at_selection, FocusDocumentState.get_body_state"), ("search of ranges", TS+"range.ts RangeTree.search"), ("faded ranges", TS+"decorations.ts invert_ranges, highlight_slice")],
  ["TextEditor.setDecorations", "TextEditor.selections"],
  technique="property-based testing of the bundled extension in a model of the editor: generated documents, answers and selections, a character-set model as the oracle, shrinking (fast-check)",
  note="Selections outside of all bodies leave the highlights as they are, as documented in the code. Stand-ins for vscode, lodash and the interval tree, whose closed intervals count touching as overlapping.")

prop("C19", "Focus mode follows edits, saves, selections and commands in any order",
  "However edits, saves, selections, switches between editors, commands and answers (or failures) of the tool interleave: once nothing runs any more, focus mode that is off or has unsaved changes in front of it shows no highlights in any editor and says so in the status bar, and otherwise the highlights are those for the current selection in the current text, or the status is an error if the tool failed. The status never stays at loading, and a failure doesn't outlast the next successful run after a save.",
  ["histories", "schedules", "faults"], "all sequences of user actions, all completion orders and failures of the tool's processes",
  "The extension's tests wait for each command to finish before the next and never edit, save, fail or change the selection while the tool runs.",
  [TS+"focus.ts", TS+"errors.ts", TS+"status_bar.ts", TS+"setup.ts"],
  [("state machine", TS+"focus.ts FocusMode"), ("states of documents and bodies", TS+"focus.ts FocusDocumentState")],
  ["StatusBarItem.text", "TextEditor.setDecorations"],
  technique="stateful model-based testing of the bundled extension: generated histories of user actions, process completions and failures in a model of the editor and the tool, shrinking (fast-check)",
  note="What is shown while a process runs is not judged. Neither are marks made while something runs, and slices analyzed while other documents had unsaved changes.")

prop("C20", "The extension talks to the tool rightly and explains its failures",
  "For a crate at the root or in any directory between it and the open file, the extension runs the tool of its own version and toolchain in that crate, on saved text, and understands its answers however they are cut into pieces; when the tool is killed, does not build the crate, or answers nonsense, a command ends in the error state, with the tool's message in front of the user where it has one. The message goes away with the next success and comes back on request.",
  ["histories", "faults", "configurations"], "all places of the crate, all answers and failures, all ways that output arrives in pieces",
  "No test of the extension lets the tool fail, and all of them open a crate's root.",
  [TS+"setup.ts", TS+"errors.ts", TS+"extension.ts", TS+"focus.ts"],
  [("running the tool", TS+"setup.ts exec_notify_binary, setup"), ("workspace root", TS+"setup.ts findWorkspaceRoot"), ("errors", TS+"errors.ts ErrorPane, show_error, last_error")],
  ["child_process.spawn", "StatusBarItem.text", "the virtual document for errors"],
  technique="stateful model-based testing of the bundled extension against a model of the tool's processes with injected faults, shrinking (fast-check)",
  note="Installing and downloading the tool is out of scope (network).")
