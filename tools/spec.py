"""The properties; tools/publish.py turns this into properties.jsonl and MANIFEST.json."""

C = "neutrinomass/completions/"
T = "neutrinomass/tensormethod/"
D = "neutrinomass/database/"
U = "neutrinomass/utils/"


def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note="", na=None, hook=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, state=list(state), observe=list(observe), note=note, na=na, hook=hook)


SPEC = [
    P("C01", "Results do not depend on the process, its hash seed or its history",
      "Every calculation of the library (completions of an operator and what is read off them, operator bases of a "
      "set of fields, neutrino-mass scale estimates, topologies, exported models, operator tables) gives the same "
      "result, up to index names, labels of exotic fields, signs and order, in every process, whatever the "
      "interpreter's hash seed, the names of the indices it is given and what the process calculated before. The "
      "results are the published ones.",
      ["configurations", "histories"],
      "all hash seeds, all sequences of calculations made earlier in the process",
      "A test process has one hash seed and one fixed history; iteration over sets and global counters and caches "
      "only show across many of both.",
      [C + "completions.py", C + "core.py", C + "topologies.py", C + "utils.py", T + "core.py", T + "contract.py",
       T + "lagrangian.py", T + "smeft.py", D + "closures.py", D + "export.py", D + "utils.py"],
      [("sorting before iteration over sets, symmetries and products of fields", C + "completions.py"),
       ("fresh index names from counters", T + "core.py"),
       ("closures by pattern matching", D + "closures.py")],
      [("hash randomisation", "iteration order of sets of strings and fields", "whole package")],
      ["completions()", "invariants()", "neutrino_mass_estimate()", "export_completion()"],
      "Seeded search; every result is compared with the same calculation in a fresh process and with the recorded "
      "result of the pinned commit."),
    P("C02", "An interrupted or abandoned calculation leaves no trace",
      "A calculation that is stopped anywhere by an interrupt, a failed allocation, a timeout or by not consuming "
      "its results any further leaves the process as usable as before: repeating it, and any other calculation "
      "afterwards, gives the result a fresh process gives, and all shared definitions are unchanged.",
      ["fault_sequences", "histories"],
      "all interruption points, all exceptions that can arrive there, all following calculations",
      "Tests let every calculation finish; none raises an exception inside one and goes on.",
      [C + "completions.py", C + "core.py", T + "core.py", T + "contract.py", T + "lagrangian.py", T + "smeft.py",
       T + "sm.py", D + "closures.py", D + "database.py", U + "functions.py"],
      [("work stacks and counters local to a call", T + "contract.py"),
       ("restoring context of progress display", U + "functions.py")],
      [("module-level counters, tables and fields", "shared by all calculations", "whole package")],
      ["any public calculation"],
      "Seeded search over interruption points at line granularity; other threads of C code are not interrupted."),
    P("C03", "Calculations that run side by side do not disturb each other",
      "Calculations that run at the same time in threads of one process, or that are advanced alternately as "
      "generators, each give the result they give alone. A result that was delivered does not change while others "
      "are still being produced.",
      ["schedules"],
      "all interleavings of two or more calculations at line or item granularity",
      "Tests run one calculation at a time and drain every generator at once.",
      [C + "completions.py", C + "core.py", T + "contract.py", T + "core.py", T + "lagrangian.py", D + "closures.py",
       U + "functions.py"],
      [("per-call work stacks", T + "contract.py"), ("graphs copied per completion", C + "completions.py"),
       ("one display at most", U + "functions.py")],
      [("work stacks, fresh-name counters, progress display", "shared by all threads", "whole package")],
      ["completions() as a generator", "threads calling any public calculation"],
      "Seeded search; preemption only between lines of the package."),
    P("C04", "Shared definitions cannot be altered by using the library",
      "The Standard Model fields, the operator tables, the exotic-field and term tables, the operator classification "
      "and the closure rules read the same after any history of calculations, failures included. What a calculation "
      "returns belongs to the caller: emptying or overwriting it changes no later result and no shared definition.",
      ["histories", "fault_sequences"],
      "all sequences of calculations, interruptions and damage the caller does to returned results",
      "Tests never modify what they are given and never compare the tables before and after.",
      [T + "sm.py", T + "core.py", T + "lagrangian.py", T + "smeft.py", C + "operators.py", C + "completions.py",
       C + "topologies.py", C + "core.py", D + "closures.py", D + "database.py"],
      [("copies of fields and graphs", T + "smeft.py"), ("tables built once at import", C + "operators.py")],
      [("fields of the Standard Model", "charges, labels, flavour", T + "sm.py"),
       ("operator tables", "name to operator", C + "operators.py")],
      ["tables and fields after every step"],
      "Seeded search; a fingerprint of all shared definitions is compared with a fresh process after every step."),
    P("C05", "A fresh index name is never already in use",
      "An index name made up by the library never coincides with a name that is in use anywhere in the process, also "
      "up to conjugation: not with one written by hand, drawn by another thread, left over from an interrupted "
      "calculation, or read back from a form saved by an earlier process. Operators read back from their saved form "
      "carry the names they were saved with.",
      ["histories", "schedules", "crash_points"],
      "all sequences of drawing, writing, saving in one process and reading back in the next; all thread schedules",
      "Tests draw fresh names in one thread of one process and read nothing back beside them.",
      [T + "core.py", T + "contract.py", C + "operators.py"],
      [("registry of names and per-type counters", T + "core.py")],
      [("registry of used names, fresh-name counters", "which names are taken", T + "core.py")],
      ["Field.fresh_indices()", "Index.fresh()", "Operator.from_pickle_form()"],
      "Seeded search over histories of up to three process lives."),
]

SPEC += [
    P("C06", "Exported models survive crashes and read back as the same models",
      "A completion that was exported and durably written reads back, in any later process, as the same model: same "
      "operator, topology, diagram, fields with their names, terms, quantum numbers and analysis, lazily or not, also "
      "when it is exported again; the summary in its record describes it. After a crash or a full disk a file holds "
      "all records that were durable, and a damaged last record is never read as a different model.",
      ["crash_points", "histories", "inputs"],
      "all completions, all crash points and lost or torn writes, all processes that write and read",
      "Tests export one completion and evaluate it in the same process; no crash, no second process, no file.",
      [D + "export.py", D + "database.py", C + "core.py", C + "utils.py", T + "core.py", U + "functions.py"],
      [("text form of completions", D + "export.py"), ("reader that evaluates records", D + "database.py")],
      [("model files", "one record per line", "*.dat")],
      ["export_completion()", "read_completions()", "LazyCompletion.force()", "ModelDatabase"],
      "Seeded search over crash points and disk faults; the loop that appends records is the harness's."),
    P("C07", "Reading a model file gives every record unchanged or fails",
      "Reading a file of models delivers each of its records exactly once, unchanged, under its operator and in "
      "order, or raises; never a part of them as if it was all. Failing, short and interrupted reads and concurrent "
      "readers change nothing about what a later read delivers, and no file stays open.",
      ["fault_sequences", "schedules", "inputs"],
      "all files of records, all read faults and interruptions, all thread schedules of readers",
      "Tests read one intact shipped file.",
      [D + "database.py", U + "functions.py"],
      [("read and evaluate line by line", D + "database.py")], [],
      ["read_completions()"],
      "Seeded search; a file cut exactly between two records cannot be told from a shorter file."),
    P("C08", "A database keeps every record of its folder and numbers it reproducibly",
      "Loading a folder of model files keeps every record of every file, in an order and with a numbering of exotics "
      "and interactions that depend only on the content, not on the listing order of the folder, the hash seed, "
      "failed or interrupted attempts before. Different exotics and interactions have different primes, conjugates "
      "the same one, and a model's number is the product over what it contains.",
      ["configurations", "fault_sequences", "histories"],
      "all folders, all listing orders, hash seeds and read faults",
      "Tests load no folder.",
      [D + "database.py", U + "functions.py"],
      [("sorted listing, merging of files", D + "database.py"), ("prime dictionaries", D + "database.py")],
      [("data", "operator to models", D + "database.py"), ("prime dictionaries", "numbering", D + "database.py")],
      ["ModelDatabase(path)", "democratic_model_number()", "stringent_model_number()"],
      "Seeded search with made-up records; tails are small expressions."),
    P("C09", "The filters keep exactly the models of the published procedure",
      "Filtering a database removes exactly the models that contain a model of an operator that implies a larger "
      "scale (or has lower dimension), after removal of equivalent models and, if asked for, of seesaws; the one-loop "
      "filter removes exactly those that contain a listed model. This holds for both philosophies and criteria, "
      "whatever the order of the files and the hash seed, and also when earlier attempts were interrupted.",
      ["inputs", "configurations", "fault_sequences"],
      "all databases, philosophies, criteria, listing orders and interruption points",
      "Tests filter nothing.",
      [D + "database.py", D + "closures.py", D + "utils.py", U + "functions.py"],
      [("divisibility of products of primes", D + "database.py"), ("ordering by scale", D + "database.py")],
      [("data, scale dictionary", "what is kept so far", D + "database.py")],
      ["ModelDatabase.process()", "filter()", "filter_one_loop_weinberg()"],
      "Seeded search against a small reference model; scales are those of the library (their stability is C01)."),
]

SPEC += [
    P("C10", "Narrowing a database down and loading its models are all or nothing",
      "A query gives exactly the models it matches, in order, and leaves the database as it was. Narrowing a database "
      "by a query, and turning its records into completions, either happen completely or, when the query, a record or "
      "an interrupt stops them, leave the database as it was, and doing it again gives the full result; loading twice "
      "is loading once. Readers side by side do not disturb each other.",
      ["fault_sequences", "histories", "schedules"],
      "all queries, failing models, interruption points and schedules of readers",
      "Tests query one intact record and never fail half way.",
      [D + "database.py"],
      [("build the new content, then put it in place", D + "database.py"), ("matching of fields and interactions", D + "database.py")],
      [("data, is_forced", "what the database holds", D + "database.py")],
      ["ModelDatabase.query()", "filter_by_query()", "force()"],
      "Seeded search against a reference list of records."),
    P("C11", "The pickled tables of viable models are complete and consistent or absent",
      "Running the pickler over a file of generated models leaves tables that hold exactly the viable models of that "
      "run, with the index tables that belong to them; a run that fails, is interrupted or killed, or hits a full disk "
      "leaves the previous complete tables, or none, and never a mixture; and the next run gives what it gives in a "
      "fresh folder, whatever was there before.",
      ["crash_points", "fault_sequences", "histories"],
      "all crash points, disk faults and interruptions of any sequence of runs",
      "No test runs the pickler.",
      [D + "pickler", D + "database.py", D + "utils.py", U + "functions.py"],
      [("write beside and rename", D + "pickler"), ("removal of what an earlier run left", D + "pickler")],
      [("tables of models, interactions, exotics", "democratic and stringent numbers", "*.p")],
      ["the pickler program", "ModelDataFrame"],
      "Seeded search; the operator table of the program is shortened in the child process."),
    P("C12", "The topologies of a class come complete and matched, or not at all",
      "Asking for the topologies of a class of operators, or for the completions built on them, gives every topology of "
      "the class once, each with the graph that belongs to it and in the same order, or fails. Missing, cut and "
      "unreadable files, short reads, interrupts and other threads never give fewer or mismatched ones, and once "
      "the files are back the full result is given.",
      ["fault_sequences", "configurations", "schedules"],
      "all classes, listing orders, damaged files, read faults, interruption points and schedules",
      "Tests read the intact shipped files in one listing order.",
      [C + "topologies.py", C + "completions.py"],
      [("pairing of partition and graph files", C + "topologies.py")],
      [], ["get_topology_data()", "completions()"],
      "Seeded search; a class of which both files of a topology are gone cannot be told from a smaller class."),
    P("C13", "Pickled and copied models, operators and fields arrive with all they had",
      "Whatever of the library's objects is pickled or copied (completions, effective operators, Lagrangians, invariants, "
      "fields and exotics with and without indices, indices, records, diagrams) arrives in the other process, or in the "
      "copy, with everything it had: fields, charges, statistics, flavours, conjugation, derivatives, positions of "
      "indices, terms, diagram, topology. It compares, prints and behaves like the original (completions, scales, export), "
      "its index names count as taken, and the original is untouched when a deep copy is taken apart. This holds for all "
      "hash seeds, orders, duplicates and histories of the processes, for threads that pickle or copy the same object, "
      "and after interrupts; a message that was cut short raises.",
      ["histories", "schedules", "fault_sequences", "configurations"],
      "all objects, all sequences of sending, receiving, forwarding and copying in several processes, all interruption points",
      "One test copies one pickle form by hand; nothing pickles or deep-copies across processes, hash seeds or threads.",
      [C + "core.py", T + "core.py", T + "lagrangian.py", D + "database.py"],
      [("how fields, indices and operators are rebuilt", T + "core.py"), ("copies of completions", C + "core.py")],
      [("attributes kept beside the sympy arguments", "charges, statistics, flavours, etc.", T + "core.py")],
      ["pickle", "copy.copy()", "copy.deepcopy()", "Completion", "Operator", "IndexedField"],
      "Seeded search over exchanges between processes; real pickle and copy."),
    P("C14", "A diagram is reported as exported only when it was made",
      "Exporting a graph as a diagram either reports success, and then the complete document that shows every edge of "
      "the graph with its name is at the path given and the diagram made from it is beside it, or raises. A full disk, "
      "a forbidden folder, an interrupt, and a typesetting program that is missing, fails or is killed are never "
      "reported as success; exporting again then works. Other exports, the graph and the process stay as they are.",
      ["fault_sequences", "schedules", "inputs"],
      "all graphs of fields, paths, disk faults, program failures, interruption points and schedules",
      "No test exports a diagram.",
      [C + "tikzfeynman.py"],
      [("checked run of the typesetting program", C + "tikzfeynman.py"), ("document from edges", C + "tikzfeynman.py")],
      [], ["tikz_export()"],
      "Seeded search; lualatex is a stand-in that reads the document and writes a diagram."),
    P("C15", "Timing and progress displays tell the truth and change nothing",
      "A timed function returns and raises what it does untimed, and the time shown or noted is the time it took, "
      "whatever happens to the wall clock. A calculation with its progress display or messages on gives the result it "
      "gives without; when the output is full, closed or cannot show a character it fails at most visibly, and "
      "afterwards output, signals and later calculations are as before.",
      ["fault_sequences", "histories", "schedules"],
      "all clock jumps, failing outputs, interruption points, nestings of timed functions and schedules",
      "Tests run with captured output and a clock that runs smoothly, and never look at a time.",
      [U + "functions.py", C + "completions.py", T + "lagrangian.py", T + "smeft.py", D + "closures.py"],
      [("clock that is never set back", U + "functions.py"), ("context that puts the display away", U + "functions.py")],
      [("standard output", "replaced while a display is up", U + "functions.py")],
      ["timeit()", "completions(verbose=True)", "npoint_fieldstrings()"],
      "Seeded search; displays on a terminal, which use a thread of their own, are not simulated."),
    P("C17", "Grouping completions does not depend on how they arrive",
      "Grouping completions into models, keeping one of each kind, sieving those out that contain a smaller model and "
      "removing equivalent ones give the same groups and kinds whatever the order in which the completions arrive, "
      "repeated or not, as lists or from generators, made in this process or read back from records. A source that "
      "fails half way or an interrupt never gives a result for the part that arrived; what arrived is not altered.",
      ["histories", "fault_sequences", "schedules"],
      "all arrival orders, repetitions, failing sources, interruption points and schedules",
      "Tests group the completions of one operator in the one order in which they are made.",
      [C + "completions.py", C + "core.py", U + "functions.py"],
      [("groups by field content", C + "completions.py"), ("products of primes for terms and fields", C + "completions.py")],
      [], ["collect_completions()", "collect_models()", "clean_completions()", "filter_completions()",
           "slow_remove_equivalent_completions()"],
      "Seeded search against a reference that reads the fields of completions itself."),
    P("C18", "Starting up reads all shipped tables or fails, and can be repeated",
      "Bringing the library into a process either reads the operator tables, the tables of exotic fields and terms and "
      "the table of models completely, or raises. Tables that are missing, cut short or unreadable, short reads, "
      "interrupts and failed allocations never give a library with less in it, and starting again in the same process "
      "with the files in order gives the complete library, with one copy of everything.",
      ["fault_sequences", "histories"],
      "all read faults and damaged tables, all interruption points of the start-up, all sequences of failed starts",
      "Tests start with the library brought in, once, from intact files.",
      [C + "operators.py", C + "core.py", D + "database.py", D + "closures.py", T + "core.py", T + "sm.py", T + "lnv.py",
       "neutrinomass/__init__.py"],
      [("tables read when the module is run", C + "operators.py"), ("tables of models", D + "database.py")],
      [("operator tables", "name to operator", C + "operators.py"), ("table of models", "rows and dictionaries", D + "database.py")],
      ["import neutrinomass", "EFF_OPERATORS", "MVDF"],
      "Seeded search; faults hit the tables, not the program text."),
    P("C16", "Every row of the table of models is the model it was made from",
      "Models found in one process, exported, gathered into tables by the pickler in others (crashes, disk errors and "
      "interrupts included, once a run completes) and read as a table of models in further ones keep their identity: "
      "each row forces to the model that was found, its columns say what that model's operator, fields, terms, topology "
      "and scale are, its numbers decode to its fields and terms, the expected models are there, and related_models() "
      "gives exactly the rows made of two or more of its fields. This holds after selecting, sorting, copying and "
      "pickling the table, with several tables in use, for concurrent readers and after interrupts.",
      ["histories", "fault_sequences", "schedules", "configurations"],
      "all sets of operators, all runs of the pickler with faults, all ways of deriving tables, all schedules of readers",
      "No test runs the pickler or makes a table of models; the parts are tested, if at all, each in one process.",
      [D + "database.py", D + "pickler", D + "export.py", D + "utils.py", D + "heavyloops.py", C + "core.py"],
      [("products of primes and dictionaries carried along by tables", D + "database.py"),
       ("code text forced on demand", D + "export.py")],
      [("table of models", "index to row", D + "database.py"), ("dictionaries of primes", "number to field or term", D + "database.py")],
      ["ModelDataFrame.new()", "ModelDataFrame.completion()", "ModelDataFrame.related_models()", "pickler"],
      "Seeded search over whole chains of processes, judged against what a fresh process finds."),
    P("C19", "The operator tables come out of their scripts as published",
      "Running the script that makes the table of operators (lnvlatex) or of operators with derivatives (lnvderivlatex) in "
      "any process, for any of the field classes, gives the published operators of those classes: the same labels, each "
      "with the same fields and structures, and a table that the rest of the package reads and uses. A run that crashes, "
      "is interrupted or meets an error from the disk leaves no table that passes for a complete one: it is absent, "
      "unreadable, or complete; and the next run that completes gives the published table whatever the earlier ones left.",
      ["histories", "fault_sequences", "crash_points", "configurations"],
      "all sets of classes, all hash seeds, all histories of runs with faults, all readers afterwards",
      "No test runs the scripts (minutes each): the tables are shipped with the package and only read by the tests.",
      [T + "lnvlatex", T + "lnvderivlatex", T + "deriv_operators.py", T + "contract.py", T + "core.py", T + "lnv.py",
       T + "parse_hs.py"],
      [("table written when all operators are known", T + "lnvlatex"), ("names from the order of the list", T + "lnvlatex")],
      [("tables", "label to operator", T + "lnvlatex")],
      ["lnvlatex", "lnvderivlatex", "longest_deriv_invariants()", "EFF_OPERATORS"],
      "Seeded search over runs, crashes and disk faults of the real scripts, judged against the shipped tables."),
]

PURE = "a pure function of its input: no schedule, clock, fault, crash or history enters, so simulation decides nothing"
SPEC += [
    P("C50", "Operator bases match the Hilbert series",
      "The number of independent invariants found for a set of fields equals the number the Hilbert series predicts.",
      ["inputs"], "all field contents", "Tests sample a handful of classes.",
      [T + "contract.py", T + "hs.py", T + "parse_hs.py"], [("null-space basis", T + "contract.py")], na=PURE),
    P("C51", "Every Lagrangian term and mass term is a singlet",
      "Every term generated for an exotic Lagrangian is invariant under the Lorentz group and the gauge group and has "
      "no free index except generations.", ["inputs"], "all exotics and terms", "Tests look at few models.",
      [T + "lagrangian.py", C + "core.py"], [("singlet filter", T + "lagrangian.py")], na=PURE),
    P("C52", "Conjugation is an involution",
      "Conjugating a field, an index or an operator twice gives back the original.", ["inputs"], "all fields, indices "
      "and operators", "Tests conjugate a few fields.", [T + "core.py", C + "core.py"], [("conj", T + "core.py")],
      na=PURE),
    P("C53", "Every tree-level completion is found",
      "For every operator the completions found are all of those with scalars and vector-like or Majorana fermions.",
      ["inputs"], "all operators", "Tests count completions of few operators.", [C + "completions.py"],
      [("exhaustive partitions over all topologies", C + "completions.py")],
      na=PURE + " (completeness itself; that the set found is stable is C01)"),
    P("C54", "Equivalence of completions is an equivalence relation",
      "Comparing completions is reflexive, symmetric and transitive and relates those that differ by relabelling.",
      ["inputs"], "all triples of completions", "Tests compare a few pairs.", [C + "completions.py"],
      [("comparison of terms under renaming", C + "completions.py")],
      na=PURE + "; as written it is also known to say no for two exotics with equal quantum numbers (see DESIGN.md)"),
    P("C55", "Mass scales follow from the operator by the closure rules",
      "The estimate of the new-physics scale of an operator is the one the published closure rules give.",
      ["inputs"], "all operators", "Tests check a few operators.", [D + "closures.py", D + "utils.py"],
      [("closure rules", D + "closures.py")], na=PURE),
    P("C56", "The mixing matrices are unitary",
      "The quark and lepton mixing matrices returned for analysis are unitary to the stated precision.",
      ["inputs"], "all parameters", "No tests.", ["neutrinomass/analysis/utils.py"],
      [("standard parametrisation", "neutrinomass/analysis/utils.py")], na=PURE),
    P("C57", "Distinct fields are displayed differently",
      "Fields that differ in any quantum number, conjugation or derivative have different names in printed and LaTeX "
      "form.", ["inputs"], "all fields", "Tests print a few fields.", [T + "core.py", C + "core.py"],
      [("latex names", T + "core.py")], na=PURE),
]
