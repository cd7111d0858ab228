API = ["pm4py/analysis.py", "pm4py/conformance.py", "pm4py/convert.py", "pm4py/discovery.py", "pm4py/filtering.py", "pm4py/ml.py",
       "pm4py/ocel.py", "pm4py/org.py", "pm4py/read.py", "pm4py/sim.py", "pm4py/stats.py", "pm4py/utils.py", "pm4py/vis.py", "pm4py/write.py"]

P("C01", "Public operations leave the objects they are given unchanged",
  "Calling a function of the simplified interface on a log, dataframe, object-centric log or process model never changes the content of that argument, "
  "whatever the options, unless the function is documented as working in place. Attributes that only cache what the object already determines do not count as content.",
  ["inputs", "configurations"], "every public function, every accepted input representation, every option value, every object reachable from the arguments",
  "Tests compare results, not the arguments after the call; the aliasing that leaks a change depends on representation, columns already present and options.",
  API, [("copies made by filters, converters and algorithms before they store", "pm4py/algo, pm4py/objects, pm4py/util")],
  "interprocedural alias-aware mutation (effect) analysis by abstract interpretation",
  "Over-approximates paths, contexts per input representation and option value; aliasing is tracked to bounded depth, objects recovered from collapsed content are not accused; third-party calls follow effect models.")

P("C02", "Calls leave no hidden state behind",
  "A call of a public function leaves no process-wide state (module or class attributes, shared default arguments) that can change the outcome of later calls. "
  "Counters that only keep identifiers unique and once-only warning switches are the only exceptions.",
  ["histories", "inputs"], "every sequence of public calls in one process",
  "Each test runs few calls in one order; state carried from one call to the next only shows for particular histories.",
  API, [("option maps and containers created per call", "pm4py/**"), ("no mutable default is written", "pm4py/**")],
  "interprocedural effect analysis: writes to module, class and default-argument storage; effect lint over all functions",
  "Covers everything reachable from the public interface plus every function of the package for mutable defaults and global statements.")

P("C03", "Every documented option reaches the outcome it is documented to shape",
  "Each argument of a public function that today influences the result, the drawing or the file it produces keeps influencing it for every input representation and option branch, "
  "and is handed to the option of the algorithm that it is documented to control. No argument is silently dropped, swapped with another one or overridden by a default.",
  ["inputs", "configurations"], "every public function, argument, input representation (event log, stream, dataframe, model type) and option value",
  "Tests call most functions with default options on one log, where a dropped or swapped option is invisible.",
  API, [("option map built from the arguments", "pm4py/utils.py"), ("option lookup with default", "pm4py/util/exec_utils.py")],
  "interprocedural taint analysis (data and control dependence) from each argument to the result, the sink, each option key and each parameter it is handed on as",
  "Decides presence of a dependence, not its exact meaning; the table of required flows is derived from the reviewed tree and committed.")

P("C04", "Case, activity, timestamp and resource attributes are the ones the caller names",
  "Where a public function lets the caller name the case identifier, activity, timestamp or resource attribute, it reads the named attribute for every input representation. "
  "It never falls back to a standard attribute name for data that the caller said is stored elsewhere.",
  ["inputs", "configurations"], "every public function with attribute-name arguments, every name given to them, every input representation",
  "The test logs use the standard attribute names, so code that hard-wires them passes every test.",
  API, [("attribute names carried in the option map", "pm4py/utils.py"), ("option lookup with default", "pm4py/util/exec_utils.py")],
  "interprocedural taint analysis of column and attribute names used on log-derived data",
  "Flags accesses by a hard-wired standard name on log-derived values reached from entries that offer the corresponding argument; reviewed exceptions are listed.")

P("C05", "Logs derived from an event log keep its metadata",
  "An event log or event stream that a public function or a log filter derives from a given log (filtering, sampling, splitting, clustering, sorting, prefixes, "
  "artificial activities, stream/log conversion) still carries the attributes, extensions, globals, classifiers and properties of that log, whatever the options. "
  "Traces that a filter builds anew carry the attributes of the trace they stand for.",
  ["inputs", "configurations"], "every public function and algorithm-layer filter that returns an event log or stream, every log with metadata, every option value",
  "Tests look at traces and counts of filtered logs; metadata lost by one filter is only noticed when it is written to a file or read by a later step.",
  ["pm4py/filtering.py", "pm4py/algo/filtering/log", "pm4py/objects/log", "pm4py/objects/conversion/log", "pm4py/hof.py", "pm4py/ml.py"],
  [("log construction with metadata", "pm4py/algo/filtering/log"), ("copies and conversions", "pm4py/objects/log/obj.py, pm4py/objects/conversion/log")],
  "interprocedural taint analysis: each kind of metadata of the argument must be what the same field of every returned log is built from",
  "Flow-insensitive in which of several joined results lost it; dataframes, whose attrs pandas itself hands on, are outside the rule; rebase (goes through a dataframe) is exempt.")

P("C06", "OCEL filters and transformations return referentially consistent logs",
  "After an object-centric log is filtered or transformed, every relation, object-to-object link, event-to-event link and object change refers to events and objects that are still in the log. "
  "Restricting one table is always propagated to all the tables that refer to it.",
  ["inputs"], "every OCEL filter and transformation, every log and every selection",
  "Tests count events or objects after a few filters; dangling links in the less used tables need logs that have such links.",
  ["pm4py/algo/filtering/ocel", "pm4py/objects/ocel/util", "pm4py/filtering.py", "pm4py/ocel.py"],
  [("propagation of a restriction to the other tables", "pm4py/objects/ocel/util/filtering_utils.py")],
  "typestate analysis: restricted table must be propagated before the log is returned; table-coverage rule for the propagation functions",
  "Tracks which tables were restricted on each path; trusts pandas isin and boolean selection.")

P("C07", "Importing the library needs only its declared dependencies",
  "Wherever the unconditional entries of requirements.txt (and what they bring along) are installed, 'import pm4py' works, with all operations that need nothing else: whatever runs at import time imports only them, the standard library and pm4py itself. "
  "Optional packages (pulp, polars, psutil, scikit-learn, cudf, ...) are imported at import time only after a test that they are installed, otherwise when the operation that needs them is called.",
  ["inputs"], "every module imported, directly or not, by pm4py/__init__.py; every set of installed optional packages",
  "The tests run in one environment, in which most optional packages are installed.",
  ["pm4py", "requirements.txt"],
  [("package root", "pm4py/__init__.py"), ("linear programming back ends", "pm4py/util/lp"), ("configuration", "pm4py/util/constants.py")],
  "reachability over the import graph of module bodies, with the packages vouched for by the tests (find_spec, helpers, try/except ImportError) on the way",
  "Versions of the packages, and what third-party packages import, are not analysed.")

P("C12", "Writers and readers carry every part of an object",
  "No reader or writer silently leaves out a kind of part that the object and its file format hold: for PNML places, transitions (name, label, guard, read and write variables, stochastic map, layout), arcs (source, target, weight, kind) "
  "and the initial and final markings; for PTML operators, labels and children; for BPMN nodes and flows with ids, names, processes, ends, directions and layout; for DFG files arcs, start and end activities; for XES traces, events, nested "
  "attributes, classifiers, extensions and globals; for OCEL (CSV, JSON, XML, SQLite) events, objects, relations with qualifiers, object-to-object relations, timed attribute changes and global values, as far as each format version has them. "
  "Each part given to a writer (or to serialize) reaches the file or string, and each part of a file reaches the object that the reader (or deserialize) returns.",
  ["inputs", "configurations"], "every reader, writer and string serializer of the library, every object with any combination of these parts",
  "A part that is dropped on one side is noticed only by a round trip over an object that has such a part (arc weights, guards, qualifiers, attribute changes, classifiers), in each format and variant.",
  ["pm4py/read.py", "pm4py/write.py", "pm4py/utils.py", "pm4py/objects"],
  [("importer and exporter variants", "pm4py/objects/*/importer/variants, pm4py/objects/*/exporter/variants")],
  "interprocedural data-flow analysis: provenance labels of each part of the object (attribute, key, component) from argument to sink and from file content to the returned object",
  "That a part is carried by some data flow is decided, not that the value or its format is right. The XES line_by_line and chunk_regex readers (log-level parts) and the Rust reader are outside the rule, as is anything the reviewed table does not list.")

P("C13", "Data is never executed as code",
  "Nothing that comes from data - the content of files and logs that are read, values of attributes, names of activities, guards of data Petri nets, events of streams - is handed to an interpreter (eval, exec, compile, import by name), "
  "an unpickler or a shell. The guards of data Petri nets are evaluated only after the safety check that forbids attribute access, and can call only a fixed selection of harmless functions.",
  ["inputs"], "every call of the package, every content of a file or log",
  "A file that attacks the reader is not among the test inputs; the guarantee is about all strings, and about every place that could interpret them.",
  ["pm4py"],
  [("guards of data nets", "pm4py/objects/petri_net/data_petri_nets/semantics.py"), ("importers", "pm4py/objects"), ("streaming", "pm4py/streaming"), ("visualizations", "pm4py/visualization")],
  "sink lint over every call of the package (imports and aliases resolved) with a dominance analysis of the safety check, followed into callers, and an analysis of the namespace given to eval",
  "Six places whose text is made by the library itself (numbers of linear programs, representations of own dictionaries, names of temporary files) are accepted by name with their number of occurrences; third-party parsers are trusted.")

P("C14", "Streaming state is reached only under its lock, and locks are always released",
  "Whatever threads append events to live streams, let algorithms process them, read results, query, terminate or (de)register: the state of a stream, a thread-safe dictionary or a streaming algorithm that changes over time is accessed only "
  "while the lock of its object is held (plain reads of constant-valued status fields excepted). A lock that is taken is released on every path, also when the operation in between fails; no thread takes a non-reentrant lock it already holds; "
  "conditions are waited for in a loop and notified while held, by every operation that changes what is waited for; every streaming algorithm has the lock of its base class.",
  ["schedules", "histories"], "every class of pm4py.streaming with a lock, every interleaving of its operations, every failure inside a locked region",
  "Data races, a lock that stays held after an exception, self-deadlocks and lost wake-ups need a particular interleaving or a failure at a particular point; the tests run one event after the other.",
  ["pm4py/streaming"],
  [("algorithm interface", "pm4py/streaming/algo/interface.py"), ("live streams", "pm4py/streaming/stream"), ("thread-safe dictionaries", "pm4py/streaming/util/dictio")],
  "guarded-by (lockset) analysis and lock typestate over the syntax tree, interprocedural within each class hierarchy",
  "Order of delivery among the threads of the pool and locks held while calling code of other classes are not analysed.")

P("C15", "Every internal reference and call of the library resolves",
  "No operation, variant or rarely used option of the library fails because the library refers to something of its own that does not exist: "
  "every name is bound, every imported name and module, class or enumeration member exists, every call of a function or constructor of the package fits its signature, "
  "every variant provides the functions that its dispatcher calls, and no local is read where no path has assigned it.",
  ["configurations", "inputs"], "every module, function, variant and option branch of the package",
  "Python resolves names and signatures only when a line runs; most variants, options and error branches are never run by the tests.",
  ["pm4py"],
  [("variant enumerations and dispatchers", "pm4py/**/algorithm.py, importer.py, exporter.py, visualizer.py"), ("dispatch helper", "pm4py/util/exec_utils.py")],
  "name resolution, signature checking and definite-unassignment analysis over the syntax tree; class-member check on values typed by abstract interpretation",
  "Names of third-party libraries and attributes of values whose class is not evident are not resolved.")

P("C17", "Files are opened in a stated encoding and closed when the operation returns",
  "No file is read or written as text in the encoding of the locale: every text file is opened with an explicit encoding (or as bytes that are encoded explicitly). Whatever file, archive or database connection an operation opens, it closes on every path "
  "on which it returns normally, or hands it to the caller or keeps it in an object that can close it; a variable that holds an open file is not given another one before the first is closed.",
  ["inputs", "configurations"], "every call of the package that opens a file or a database connection, every path to the return of its function, every locale",
  "Tests run in one locale, with ASCII names, and the garbage collector of CPython closes what was forgotten.",
  ["pm4py"],
  [("importers and exporters", "pm4py/objects"), ("event stream readers", "pm4py/streaming"), ("visualizations", "pm4py/visualization"), ("command line", "pm4py/cli.py")],
  "path-sensitive typestate analysis of the variables that hold files and connections (opened, closed, handed over), with summaries of the functions that close a parameter, and a rule on the encoding argument of every text open",
  "Paths on which an exception leaves the function are not required to close.")
P("C19", "Only sampling and simulation depend on random draws",
  "The outcome of a public function that is not documented as sampling, simulating, generating or perturbing data is not influenced by a random-number generator, in its result, the order of its result, or what it writes or draws. "
  "The same input therefore cannot give different outcomes because of random draws in the library.",
  ["inputs", "configurations"], "every public function not documented as random, every input and option",
  "A test run sees one draw; results that differ rarely or only in ties pass.",
  API, [("random draws confined to sampling, play-out, generation and noise", "pm4py/algo/simulation, pm4py/algo/anonymization, pm4py/objects/log/util")],
  "interprocedural taint analysis from random-number generators to results and sinks",
  "Covers Python's and numpy's generators; iteration order of sets of strings (hash seeds) and clocks are outside the rule.")

P("C24", "Public functions have only the external effects they announce",
  "Only reading functions read files, only writing and drawing functions write files, only the data extractors and the LLM query use the network, and only drawing functions (and the layout of BPMN files) start processes. "
  "Discovery, conformance checking, filtering, statistics and conversion have no effect outside the process and change no process-wide setting.",
  ["inputs", "configurations"], "every public function, input and option value",
  "Tests do not watch the file system, the network or process creation, and an effect on a rare branch is not exercised.",
  API, [("effects confined to importers, exporters, visualizers and connectors", "pm4py/read.py, pm4py/write.py, pm4py/vis.py, pm4py/connectors.py")],
  "interprocedural effect analysis: external-effect categories reachable from each public function",
  "Effects of third-party calls are classified by name; effects inside third-party libraries that their names do not reveal are trusted.")

P("C25", "Functions return the kind of result that their signature announces",
  "A public or algorithm-layer function (discovery, conformance, filtering, statistics, evaluation, transformation, organizational mining, object conversion and input/output) whose signature announces its result (a number, text, dictionary, "
  "list, tuple with given components, data frame, event log, Petri net, marking, process tree, BPMN, OCEL, ...) returns that kind of object for every input representation and option; a function announced for logs and data frames returns a log "
  "for a log and a data frame for a data frame where both are announced. Unknown or unsupported option values, levels, formats and model types raise an exception instead of falling through to None or another kind of result. "
  "Documented switches such as return_diagnostics_dataframe are excepted.",
  ["inputs", "configurations"], "every function with a return annotation in pm4py's public modules and algorithm layers, every input representation, every combination of its options",
  "Which kind of object comes back depends on the branch taken: a representation, model type, variant or option that no test passes may fall through to None, a bare value instead of a tuple, or another container.",
  ["pm4py"],
  [("public API", "pm4py/*.py"), ("algorithm layers", "pm4py/algo, pm4py/objects, pm4py/statistics")],
  "interprocedural abstract interpretation of the kinds of values returned per input representation and option, compared with the return annotations",
  "Kinds that the analysis cannot determine are not judged; functions whose announced kind is wrong as documented were repaired, reviewed or recorded.")

P("C27", "Events of different cases are never paired as consecutive",
  "Directly-follows relations, paths, triples, workloads and performance figures computed from a dataframe pair an event only with events of its own case: "
  "whenever rows of an event table are moved against each other, the pairs that cross the border between two cases are removed before they influence a result.",
  ["inputs"], "every computation over a dataframe that pairs rows by position, every dataframe",
  "Whether a wrongly kept pair shows depends on which cases happen to be neighbours in the table and on what their first and last events are.",
  ["pm4py/algo/discovery/dfg", "pm4py/algo/filtering/pandas", "pm4py/algo/discovery/performance_spectrum", "pm4py/algo/organizational_mining/resource_profiles"],
  [("shifted dataframe and case filter", "pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py"), ("paths filter", "pm4py/algo/filtering/pandas/paths/paths_filter.py")],
  "interprocedural taint analysis: rows moved by position must be restricted by the case identifier moved by the same call",
  "Computations that walk over traces row by row, and the polars variant, are outside the rule; the order of events within a case is not decided.")

P("C28", "The size of a log is its number of cases in every representation",
  "A function that accepts an event log or a dataframe treats the size of the log as the number of its cases in both representations: when it gets a dataframe, no frequency, share, threshold, weight or bound "
  "in its outcome depends on the number of rows (events) of the table, except through whether there are any. Functions that are about events rather than cases (resource profiles of activities, event-level filters, sampling of drawn points) are excepted.",
  ["inputs", "configurations"], "every public and algorithm-layer function that accepts an event log as well as a dataframe, every dataframe and option value",
  "len() of a log is the number of traces and len() of a dataframe the number of events; both give plausible figures, and tests rarely compare the two representations on logs where the difference crosses a threshold.",
  ["pm4py/algo", "pm4py/statistics", "pm4py/discovery.py", "pm4py/conformance.py", "pm4py/org.py"],
  [("weights relative to the number of cases", "pm4py/algo/evaluation/precision, pm4py/algo/discovery/log_skeleton, pm4py/algo/organizational_mining/sna")],
  "interprocedural taint analysis: sizes of tables with one row per event must not reach results",
  "Grouping, distinct values and tables built from Python values are no longer counted as tables of events; counts made by explicit loops over rows are outside the rule.")

P("C29", "Cases are gathered whole and in order",
  "A computation over a dataframe never assumes that the events of a case are contiguous in the table it is given: wherever rows that lie together are taken for the events of one case, the table was gathered by case before, "
  "and gathering keeps the order of the events within each case (a sort by the case identifier alone is stable). The variants, relations and subcases of a log therefore do not depend on how its cases are interleaved.",
  ["inputs"], "every computation over a dataframe that finds cases or neighbouring events by position, every interleaving of the cases",
  "Test logs are stored case by case and small sorts happen to be stable, so a missing or unstable gathering shows only on interleaved or large tables.",
  ["pm4py/objects/log/util/pandas_numpy_variants.py", "pm4py/algo/filtering/pandas", "pm4py/algo/discovery/dfg", "pm4py/streaming/conversion", "pm4py/util/compression"],
  [("variants of a dataframe", "pm4py/objects/log/util/pandas_numpy_variants.py"), ("between and activity-split filters", "pm4py/algo/filtering/pandas")],
  "interprocedural typestate analysis: a table of events must be sorted with the case identifier first before its rows are used by position",
  "Functions called directly get their default settings; loops over single rows, and the polars variant, are outside the rule.")

P("C30", "A collection is never resized while a loop goes through it",
  "No loop or comprehension comes to its next round after its body, or a function called from it, has added or removed elements of the very collection (list, set, dictionary or its views, nodes or edges of a graph) that it goes through: "
  "no element is skipped, none is seen twice, and no 'changed size during iteration' error occurs. Lists may grow at their end (work lists).",
  ["inputs"], "every loop and comprehension of the package, every content of the collection",
  "Whether elements are skipped, or an error is raised, depends on the order and the number of the elements that match; the few examples of the tests mostly have one.",
  ["pm4py"],
  [("Petri net utilities", "pm4py/objects/petri_net/utils"), ("process tree utilities", "pm4py/objects/process_tree/utils/generic.py"), ("conversions", "pm4py/objects/conversion"), ("streaming", "pm4py/streaming"), ("log transformations", "pm4py/objects/log")],
  "must-alias analysis of access paths (value numbering, inverse references of arcs, trees and transitions) with path-sensitive tracking of changes per loop and interprocedural summaries of the collections a function changes",
  "Aliases other than equal access paths (for example the same set held in two fields) are not seen.")
P("C31", "Every loop and search of the library makes progress towards its end",
  "No operation hangs because a loop comes round again without any progress: on every path through the body of a while loop, something that its end depends on moves the right way (an index towards its bound, a work list loses an element, "
  "a flag is not just set again without any change). A search over a graph (markings, states, relations) puts on its work list only what a look-up in what it has already seen lets through, or goes down a tree or a decreasing measure; "
  "no function calls itself with its own unchanged arguments.",
  ["inputs"], "every while loop, work list and recursive function of the package, every path through their bodies",
  "A hang shows only on the inputs that take the one path without progress (an event that is skipped, a cycle of markings, a silent livelock); tests have few of them.",
  ["pm4py"],
  [("searches on nets", "pm4py/objects/petri_net/utils"), ("alignments", "pm4py/algo/conformance/alignments"), ("play-out", "pm4py/algo/simulation/playout"), ("log filters", "pm4py/algo/filtering/log"), ("discovery", "pm4py/algo/discovery"), ("importers", "pm4py/objects/log/importer")],
  "path-sensitive progress analysis of while loops (direction of the operands of the exit conditions, sizes of containers, flags) and guard analysis of work lists",
  "A computed value assigned to an operand of the exit condition is taken for progress; bounds on the number of rounds are not derived.")
