"""Source table for properties.jsonl and MANIFEST.json (run gen.py after editing)."""

PKGALL = ["mt_metadata/"]

PROPS = [
 dict(
  id="C01", title="Reading metadata never executes code taken from the data",
  statement="Whatever a metadata file, string, dictionary or web response contains, loading, converting or summarising it only ever produces data. No text or bytes from the input are evaluated as code, unpickled, passed to a shell, or used to pick a module outside the package to import.",
  over=["inputs"], quant="Every string, file and response a user can hand to any reader or setter in the package.",
  why="Tests feed benign strings; one hostile filter string or file decides the property and no finite set of samples excludes another evaluator being reachable.",
  files=["mt_metadata/timeseries/channel.py", "mt_metadata/common/list_dict.py", "mt_metadata/transfer_functions/io/", "mt_metadata/base/metadata.py"],
  mech=[("literal-only parsing of filter strings", "mt_metadata/timeseries/channel.py"), ("json/ElementTree readers only", "mt_metadata/base/metadata.py, mt_metadata/transfer_functions/io/emtfxml/emtfxml.py")],
  technique="who-may-call analysis over resolved names (aliases, getattr, builtins)",
  note="All call sites and external references of the package are resolved through imports, aliases and getattr; none may denote an evaluator, unpickler, shell or computed foreign import."),
 dict(
  id="C02", title="The network is contacted only when the caller asks for it",
  statement="Importing the package, building objects and reading or writing files never opens a network connection. A connection is made only inside a lookup the caller requests explicitly, by calling a lookup function directly or by turning on an option that is off by default.",
  over=["configurations", "inputs"], quant="Every call with default arguments, for every input.",
  why="Tests mock or skip the elevation service; a lookup that has become the default fails quietly off line and slows every read on line.",
  files=["mt_metadata/transfer_functions/io/tools.py", "mt_metadata/transfer_functions/io/edi/", "mt_metadata/transfer_functions/core.py"],
  mech=[("elevation look-up guarded by an opt-in flag", "mt_metadata/transfer_functions/io/edi/edi.py, mt_metadata/transfer_functions/io/tools.py")],
  technique="call-graph reachability of network primitives with guard (opt-in flag) propagation",
  note="Every reference to a network primitive is found; each call chain from a public entry to it must pass a branch that requires an option whose default is off."),
 dict(
  id="C03", title="The package works without the optional obspy dependency",
  statement="Without obspy installed every module imports and works, except the parts whose purpose is obspy itself: the StationXML bridge, the obspy stage parser, the multi-file conversion tool and the developer formatter script. Elsewhere obspy is only touched inside calls that ask for an obspy object; no undeclared third-party package is needed at import.",
  over=["configurations"], quant="Every environment with the declared dependencies, with or without the optional one.",
  why="Tests run with obspy installed.",
  files=["mt_metadata/timeseries/filters/", "mt_metadata/timeseries/stationxml/", "mt_metadata/common/", "mt_metadata/timeseries/tools/"],
  mech=[("guarded or function-local imports of obspy", "mt_metadata/timeseries/filters/, mt_metadata/common/mttime.py")],
  technique="import-graph analysis (transitive, guard aware) and guarded-use rule",
  note="Transitive import-time closure of all modules; every import-time import must be stdlib, declared, internal or guarded; every use of a guarded name must be reachable only where it is bound."),
 dict(
  id="C04", title="Output does not depend on hash order or directory listing order",
  statement="The same inputs give the same output in the same order in every process. No result depends on the iteration order of a set, on the string hash seed, on object addresses or on the order in which the file system lists a directory.",
  over=["configurations", "inputs"], quant="Every hash seed and every file system listing order.",
  why="Tests run with PYTHONHASHSEED=0 on one file system.",
  files=["mt_metadata/timeseries/", "mt_metadata/transfer_functions/io/", "mt_metadata/common/"],
  mech=[("sorted() around sets and directory listings", "mt_metadata/timeseries/run.py, mt_metadata/timeseries/tools/from_many_mt_files.py")],
  technique="dataflow from unordered sources to order-sensitive consumers, with call summaries",
  note="Every set-valued or directory-listing expression is tracked to its consumers; only order-insensitive consumers (sorted, membership, len, set algebra) are accepted."),
 dict(
  id="C05", title="Text files are read and written in a fixed encoding",
  statement="Every text file the package reads or writes is decoded and encoded with an encoding fixed by the package, so the same file gives the same metadata and the same metadata gives the same bytes on every host. The host's locale or default encoding never takes part.",
  over=["configurations", "inputs"], quant="Every host locale / default encoding and every file with non-ASCII text.",
  why="The tests run under one locale with mostly ASCII files.",
  files=["mt_metadata/transfer_functions/io/", "mt_metadata/base/metadata.py", "mt_metadata/timeseries/experiment.py"],
  mech=[("explicit encoding argument at each open/read_text/write_text", "all readers and writers")],
  technique="call-site argument analysis (constant propagation of mode and encoding)",
  note="Every open-like call site in the package, mode and codec resolved to constants."),
 dict(
  id="C06", title="Results do not depend on the host's time zone or locale",
  statement="Time stamps, durations and formatted dates the package produces depend only on the metadata and on UTC. No conversion uses the host's local time zone, and no date is formatted or parsed with locale-dependent month, day or AM/PM names.",
  over=["configurations"], quant="Every host time zone and locale setting.",
  why="The tests run with TZ=UTC in the C locale, where local time and UTC coincide.",
  files=["mt_metadata/common/mttime.py", "mt_metadata/timeseries/stationxml/", "mt_metadata/transfer_functions/io/"],
  mech=[("UTC-only time stamp class", "mt_metadata/common/mttime.py")],
  technique="who-may-call analysis with argument rules over resolved time APIs",
  note="All external calls resolved; any local-time or locale-format API use is reported."),
 dict(
  id="C07", title="Using the package leaves process-wide settings alone",
  statement="Calling anything in the package leaves process-wide state as it was: warning filters, logging configuration, numpy, pandas and plotting options, the working directory, environment variables, import path, random seeds and other libraries' objects. The only exception is the logger set-up done once when the package is first imported.",
  over=["histories", "configurations"], quant="Every call sequence in any host program.",
  why="Tests never compare process state before and after each call, and each runs in a shared process where a leak is invisible.",
  files=["mt_metadata/__init__.py", "mt_metadata/"],
  mech=[("no global mutators called; numpy.errstate / catch_warnings used for local needs", "whole package")],
  technique="who-may-call and who-may-write analysis on foreign modules and objects",
  note="All external calls and all attribute/item stores resolved; stores into foreign modules/classes and mutator calls outside a restoring context are reported."),
 dict(
  id="C08", title="Interrupts and exit requests always propagate",
  statement="If KeyboardInterrupt or SystemExit is raised while the package is working, it reaches the caller as that exception; no handler or cleanup code swallows or converts it. The library itself never ends, blocks or prompts the host process.",
  over=["schedules", "fault_sequences"], quant="An interrupt delivered at any instruction inside any call.",
  why="No test raises an interrupt inside library code; handlers that swallow it behave normally otherwise.",
  files=["mt_metadata/base/metadata.py", "mt_metadata/base/helpers.py", "mt_metadata/transfer_functions/io/", "mt_metadata/timeseries/"],
  mech=[("handlers catch Exception subclasses only", "every try statement")],
  technique="exception-handler analysis: re-raise on all paths for broad handlers, finally-exit rule, who-may-exit",
  note="Every except clause, finally block and contextlib.suppress is classified."),
 dict(
  id="C09", title="Validation is the same with and without interpreter optimisation",
  statement="Every check of user input or internal consistency also takes effect when Python runs with -O or -OO: invalid input is rejected with the same exception and results do not change. No behaviour depends on assert statements, the debug flag or docstrings being present.",
  over=["configurations", "inputs"], quant="Every interpreter optimisation level and every invalid input.",
  why="The test suite cannot run under -O (its own asserts vanish).",
  files=["mt_metadata/timeseries/filters/", "mt_metadata/transfer_functions/", "mt_metadata/base/"],
  mech=[("explicit raise for each rejected condition", "whole package")],
  technique="syntax-tree query for optimisation-dependent constructs",
  note="Every statement of every module is visited."),
 dict(
  id="C10", title="Every opened file or connection is closed on every path",
  statement="Each file, archive or network response the package opens is closed by the time the call returns or raises, also when parsing the content fails half way. The only handles left open are those handed to a caller that closes them.",
  over=["fault_sequences", "inputs"], quant="Every exception that can be raised between open and close.",
  why="Tests take the success path; CPython reference counting hides leaks there.",
  files=["mt_metadata/transfer_functions/io/", "mt_metadata/base/metadata.py", "mt_metadata/timeseries/experiment.py"],
  mech=[("with statements around every open", "all readers and writers")],
  technique="acquire/release pairing on all exits with returns-a-handle summaries",
  note="Every open-like call must be a with item, be closed in a finally that covers all later statements, or be returned to such a caller."),
 dict(
  id="C11", title="A failed export does not destroy the existing file",
  statement="When the content to export cannot be built, the destination keeps what it held before: the destination is only truncated once the full content exists. Conversion, formatting and validation errors are raised before the file is touched.",
  over=["fault_sequences", "crash_points", "inputs"], quant="Every metadata state for which serialisation raises, for every writer.",
  why="Tests write valid objects to fresh paths.",
  files=["mt_metadata/base/metadata.py", "mt_metadata/timeseries/experiment.py", "mt_metadata/transfer_functions/io/"],
  mech=[("content is built before the with-open block", "all writers")],
  technique="effect-ordering rule: no fallible project call between truncation and write",
  note="Every truncating with-block; only writes of already built values (or helpers that only do that) may run inside."),
 dict(
  id="C12", title="Reading, comparing, printing, copying or exporting changes nothing",
  statement="Looking at a metadata object, filter, time stamp or transfer function leaves it as it was: property reads, comparisons, printing, copying, plotting and every export to a dictionary, JSON, XML, series, obspy object, table or file do not change any value, list, order or flag of the object they report on. Only lazily filled private caches, the dataset's attribute mirror, recomputed summaries (extents, time periods, recorded channels) and the header and section lists a file-format object rebuilds when it writes itself may change.",
  over=["inputs", "histories"], quant="Every object state and every sequence of reads and exports.",
  why="Tests compare one export with its expected value; they do not look at the object afterwards, nor export it twice in different ways.",
  files=["mt_metadata/base/metadata.py", "mt_metadata/timeseries/", "mt_metadata/transfer_functions/core.py", "mt_metadata/transfer_functions/io/", "mt_metadata/timeseries/filters/"],
  mech=[("exporters work on copies", "mt_metadata/base/metadata.py, mt_metadata/timeseries/experiment.py, mt_metadata/transfer_functions/core.py")],
  technique="interprocedural side-effect (mutation/alias) summaries",
  note="Every property getter, comparison, printer, copier and exporter; a store or container mutation reaching the object through any alias, element or call is reported."),
 dict(
  id="C13", title="Readers, converters and helpers leave their arguments unchanged",
  statement="Calling a reader, loader, converter, validator, comparison or helper never changes the dictionary, list, array, series, XML element or metadata object passed to it. Only calls whose purpose is to take the object over (add, append, set) or to fill it may touch it.",
  over=["inputs", "histories"], quant="Every argument value and every caller that keeps using its argument afterwards.",
  why="Tests build a fresh argument for each call and never look at it again.",
  files=["mt_metadata/base/metadata.py", "mt_metadata/base/helpers.py", "mt_metadata/timeseries/", "mt_metadata/transfer_functions/io/", "mt_metadata/timeseries/stationxml/"],
  mech=[("loaders copy before popping or renaming keys", "mt_metadata/timeseries/experiment.py, mt_metadata/transfer_functions/io/emtfxml/metadata/")],
  technique="interprocedural side-effect (mutation/alias) summaries",
  note="Every public function and method; stores reaching a parameter through any alias, element or call are reported."),
 dict(
  id="C14", title="Objects and calls share no hidden mutable state",
  statement="Two objects never share a list, dictionary or nested object the user did not share himself, and what one call does never changes the defaults, tables or class attributes another call sees. Lookup tables and default values are never changed by use, and what is handed to the user is not the table itself; memo caches are the only shared state that is written.",
  over=["histories", "inputs"], quant="Every sequence of constructions, edits and calls in one process.",
  why="A leak needs two objects and an edit in between; tests use one object per case.",
  files=["mt_metadata/base/", "mt_metadata/common/", "mt_metadata/timeseries/", "mt_metadata/transfer_functions/", "mt_metadata/__init__.py"],
  mech=[("default factories and copies of shared tables", "mt_metadata/base/metadata.py, mt_metadata/transfer_functions/__init__.py")],
  technique="escape and mutation analysis of module, class and default-argument objects",
  note="Every mutable module global, class attribute, default argument and model default instance: no write, no store of an alias, no hand-out."),
 dict(
  id="C15", title="Copies are independent and inplace=False leaves the operands alone",
  statement="An operation with an inplace switch changes nothing but the returned object when the switch is off, returns a different object, and does take effect when the switch is on. A copy or sum of two objects shares no mutable part with the originals, so editing it never changes them.",
  over=["inputs", "histories"], quant="Every operand and every edit of the result.",
  why="Tests check the result's value; sharing shows only when the result is edited later.",
  files=["mt_metadata/timeseries/run.py", "mt_metadata/timeseries/station.py", "mt_metadata/timeseries/survey.py", "mt_metadata/common/list_dict.py", "mt_metadata/base/metadata.py", "mt_metadata/transfer_functions/core.py"],
  mech=[("merge and sort on copies", "mt_metadata/timeseries/, mt_metadata/common/list_dict.py"), ("copy / __deepcopy__", "mt_metadata/base/metadata.py, mt_metadata/transfer_functions/core.py")],
  technique="side-effect and result-alias summaries specialised to the flag value",
  note="Every function with an inplace parameter and every copying method."),
 dict(
  id="C16", title="No operation stops with an internal programming error",
  statement="Whatever the input and whichever branch it takes, no call in the package fails because the code itself refers to something that does not exist: an undefined name, a local variable no branch has set, an attribute, field or method the class never declares, a module or symbol that cannot be imported, or a function, constructor or method called with arguments its signature does not accept. Nor does it use a method where its result is meant, call a property, raise something that is not an exception, or unpack the wrong number of values.",
  over=["inputs", "configurations"], quant="Every branch of every function, for every input that reaches it.",
  why="Such an error lies on a branch no test takes: an unusual file section, an empty container, an error message being built.",
  files=["mt_metadata/timeseries/", "mt_metadata/transfer_functions/", "mt_metadata/base/", "mt_metadata/common/", "mt_metadata/features/", "mt_metadata/processing/"],
  mech=[("names, attributes and signatures agree across modules", "whole package")],
  technique="definite-assignment dataflow, class-member resolution over inferred types, call-signature binding",
  note="Every name use, local use, attribute access on an object whose class is inferred, import, internal call site and unpacking in the package."),
 dict(
  id="C17", title="Every default value satisfies its own declaration",
  statement="The default of each declared metadata field is itself a valid value of that field: it has the declared type, is a member of the declared enumeration, matches the declared pattern, lies within the declared bounds and passes the field's own validators. So a freshly built object can be exported in full and read back, and each of its values can be assigned again.",
  over=["inputs"], quant="Every field of every metadata class.",
  why="pydantic does not validate defaults, and tests compare the default or set a value but do not put the default through its own field.",
  files=["mt_metadata/common/", "mt_metadata/timeseries/", "mt_metadata/transfer_functions/", "mt_metadata/features/", "mt_metadata/processing/"],
  mech=[("Annotated[type, Field(default=..., pattern=..., ge=...)] declarations", "every metadata class"), ("field validators", "every metadata class")],
  technique="declaration checking with conditional constant propagation through validators",
  note="Every declared default is evaluated to a constant, propagated through the field's validators and judged against the annotation and constraints; undecidable ones are counted."),
 dict(
  id="C18", title="A value that is set is kept, refused or reported",
  statement="Assigning to a field or property, or calling an add_* method, keeps what was given (possibly converted), raises, or reports the problem in the log. A value, or an element of a list or dictionary, is never silently dropped, replaced by something unrelated, or entered twice; an empty value may become the empty default.",
  over=["inputs"], quant="Every value that can be assigned to any validated field, property or added to a container.",
  why="The lost case is a type or combination no test passes; the object then looks valid.",
  files=["mt_metadata/timeseries/", "mt_metadata/common/", "mt_metadata/processing/", "mt_metadata/transfer_functions/", "mt_metadata/features/"],
  mech=[("validators end every path in return value or raise", "every field_validator"), ("collecting loops append or refuse each element", "mt_metadata/timeseries/run.py, station.py, survey.py, experiment.py, mt_metadata/processing/")],
  technique="path-sensitive dependence analysis of validators, setters and adders",
  note="Every path of every field validator, property setter and add_* method is walked with the names that depend on the value and the tests passed."),
 dict(
  id="C19", title="An option given to a call takes effect",
  statement="Every optional parameter of a public function or method influences what the call does: it is read, and where the work is handed to another call that has the same option, the value the caller gave is passed on and under its own name. No option or keyword argument is accepted and then ignored.",
  over=["inputs", "configurations"], quant="Every option of every callable, for every value a caller gives it.",
  why="Tests use the default or one value; an option that has no effect looks exactly like its default.",
  files=["mt_metadata/base/", "mt_metadata/timeseries/", "mt_metadata/transfer_functions/", "mt_metadata/common/"],
  mech=[("options forwarded through the to_*/from_* families", "mt_metadata/base/metadata.py, mt_metadata/timeseries/experiment.py, mt_metadata/transfer_functions/core.py")],
  technique="def-use analysis of parameters and argument binding across call sites",
  note="Every parameter with a default and every **kwargs: read at all, passed to callees that share the option, and not crossed with another one."),
 dict(
  id="C20", title="Zero is a value, never taken for a missing one",
  statement="A number that is zero is treated like any other number. Whether an optional number, index or count has been given is decided by comparing it with None (or the documented missing marker), not by its truth, so zero latitudes, azimuths, indices, periods and offsets are kept, written and used.",
  over=["inputs"], quant="Every numeric field, parameter and index that can be zero.",
  why="Tests rarely use exactly zero where a default stands in for missing.",
  files=["mt_metadata/timeseries/", "mt_metadata/transfer_functions/io/", "mt_metadata/common/", "mt_metadata/base/"],
  mech=[("is None tests on optional numbers", "whole package")],
  technique="type inference over declared fields and a truthiness-of-numbers rule",
  note="Every truth test and membership test whose operand is a declared numeric field, numeric parameter or index."),
 dict(
  id="C21", title="Every filter kind and channel kind is handled wherever any kind is",
  statement="Each kind of filter (pole-zero, coefficient, time delay, FIR, frequency response table) and of channel (electric, magnetic, auxiliary) is accepted wherever its siblings are: in containers, type checks and unions, when read back from dictionaries, XML or StationXML response stages, and in the methods all kinds share. A kind's name, component or stage always leads to that kind's own class.",
  over=["inputs"], quant="Every kind at every place that chooses between kinds.",
  why="Tests use the two or three common kinds; a kind left out of one list is refused or misread only there.",
  files=["mt_metadata/timeseries/filters/", "mt_metadata/timeseries/run.py", "mt_metadata/timeseries/survey.py", "mt_metadata/timeseries/experiment.py", "mt_metadata/timeseries/stationxml/"],
  mech=[("filter and channel dispatch by type name", "mt_metadata/timeseries/survey.py, mt_metadata/timeseries/run.py, mt_metadata/timeseries/experiment.py"), ("StationXML stage bridge", "mt_metadata/timeseries/filters/obspy_stages.py")],
  technique="exhaustiveness analysis of class-family dispatch over the class hierarchy",
  note="Families are read from the class hierarchy; every tuple, union, registry, table and if/elif/match chain naming or choosing between members is evaluated for each member's own name."),
 dict(
  id="C22", title="Components, electrodes, coordinates and ends are never mixed up",
  statement="Where metadata or data is moved from one place to another, what belongs to one of several like things arrives at that same one: x with x, latitude with latitude, start with start, the positive electrode with the positive electrode, hx with hx, and the row and column of a matrix with the channels they stand for. Every cell, end and component is filled, and none twice from different sources.",
  over=["inputs"], quant="Every transfer between two objects, dictionaries, file fields or matrix cells, for all values.",
  why="Tests rarely give the like things different values; a swap or a doubled cell then shows nothing.",
  files=["mt_metadata/transfer_functions/io/", "mt_metadata/transfer_functions/core.py", "mt_metadata/timeseries/stationxml/", "mt_metadata/timeseries/", "mt_metadata/common/"],
  mech=[("field-by-field translation between formats", "mt_metadata/transfer_functions/io/, mt_metadata/timeseries/stationxml/"), ("spectra to cross-power cells", "mt_metadata/transfer_functions/io/edi/edi.py")],
  technique="dataflow over name vocabularies (transfer agreement) for assignments, bindings, tables and matrix cells",
  note="Names on both sides of each transfer are split into terms of vocabularies (axis, end, sign, component, coordinate); opposite terms of one vocabulary on the two sides, or a cell written twice while its sibling is not, is a violation."),
 dict(
  id="C23", title="Every attribute name kept as text exists on the object it is used on",
  statement="Where the package keeps attribute names as text - translation tables between formats, key lists, dotted paths, keyword dictionaries - every name denotes a declared attribute of the object it is applied to, and every key looked up in a fixed table is in that table. No value is stored under a name nothing ever reads, and no name fails when its turn comes.",
  over=["inputs"], quant="Every name in every table and list, for every object it is applied to.",
  why="Objects accept undeclared attributes silently, and tests exercise a few rows of each table.",
  files=["mt_metadata/timeseries/stationxml/", "mt_metadata/transfer_functions/io/", "mt_metadata/timeseries/", "mt_metadata/base/"],
  mech=[("translation tables", "mt_metadata/timeseries/stationxml/, mt_metadata/transfer_functions/io/emtfxml/, mt_metadata/transfer_functions/io/edi/"), ("dotted attribute access", "mt_metadata/base/metadata.py")],
  technique="constant propagation of attribute names through loops and tables to receivers of known class",
  note="Every setattr/getattr/update_attribute/get_attr_from_name/from_dict/subscript use whose name and receiver class can be determined; undetermined ones are counted."),
 dict(
  id="C24", title="Every alternative the code provides can be taken",
  statement="Every branch, comparison, alternative spelling, exception handler, table row and definition can take effect for some input. None is shut out by the tests before it, by a condition that can never hold or always holds, by a word the compared field never contains, or by a later definition of the same name, so each kind of input and failure that is provided for is treated as provided.",
  over=["inputs"], quant="Every test, handler, table row and definition, for all values of what it looks at.",
  why="A branch nothing reaches passes every test; the input it was written for is silently treated as another kind.",
  files=["mt_metadata/transfer_functions/io/", "mt_metadata/timeseries/", "mt_metadata/common/", "mt_metadata/utils/", "mt_metadata/base/"],
  mech=[("choices on keys, kinds, types and ranges", "mt_metadata/transfer_functions/io/, mt_metadata/timeseries/stationxml/, mt_metadata/utils/validators.py"), ("enumerated fields", "mt_metadata/common/enumerations.py")],
  technique="satisfiability of every test under its path conditions over finite representative values",
  note="Tests on values other than text, numbers, None, truth and class membership are taken as possible either way; the code is analysed as written, before any normalisation."),
 dict(
  id="C25", title="Problems are raised, messages are complete and worked-out results are used",
  statement="Every error that is built is raised, and every error, warning or log message shows the values it announces: no placeholder is left unfilled, none lacks a value, and no value handed to a message or format string is left out. No text, comparison, method reference, conversion or computed result is worked out and then dropped or replaced before anything reads it.",
  over=["inputs"], quant="Every message, format string, exception, expression statement and result given to a name or attribute, on every path.",
  why="Tests check that an error is raised, seldom its text, and rarely run the branches that only report.",
  files=["mt_metadata/"],
  mech=[("log messages and exceptions", "mt_metadata/timeseries/, mt_metadata/transfer_functions/, mt_metadata/utils/validators.py, mt_metadata/base/")],
  technique="dataflow from message texts to log, warning and raise sites; effect analysis of expression statements",
  note="Format strings held in module constants or passed in from callers are not followed."),
 dict(
  id="N01", title="Writing and reading back gives equal metadata and data",
  statement="An object or transfer function written in any supported format and read back compares equal to the original, up to what that format documents it cannot hold.",
  over=["inputs"], quant="Every object and every format.",
  why="Tests read back a few files.",
  files=["mt_metadata/transfer_functions/io/", "mt_metadata/base/metadata.py", "mt_metadata/timeseries/stationxml/"],
  mech=[("paired readers and writers", "mt_metadata/transfer_functions/io/")]),
 dict(
  id="N02", title="Filter responses follow their mathematical definition",
  statement="The complex response, pass band, normalisation and total gain of each filter and of a channel response equal the values their poles, zeros, coefficients, delays and tables define, at every frequency.",
  over=["inputs"], quant="Every filter and frequency.",
  why="Tests evaluate a few filters.",
  files=["mt_metadata/timeseries/filters/"],
  mech=[("complex_response", "mt_metadata/timeseries/filters/")]),
 dict(
  id="N03", title="Transfer function numerics are consistent",
  statement="Impedance, tipper, their errors, covariances and rotations computed from spectra, cross powers or apparent resistivity and phase agree with the defining formulas for every input.",
  over=["inputs"], quant="Every spectrum, rotation angle and period.",
  why="Tests check a few files.",
  files=["mt_metadata/transfer_functions/core.py", "mt_metadata/transfer_functions/io/edi/edi.py", "mt_metadata/transfer_functions/io/zfiles/zmm.py"],
  mech=[("error and covariance computation", "mt_metadata/transfer_functions/core.py"), ("rotation", "mt_metadata/transfer_functions/io/edi/edi.py")]),
 dict(
  id="N04", title="Time stamps keep their instant through every conversion",
  statement="An instant set as text, epoch seconds, datetime, numpy, pandas or GPS time is the same instant, to the nanosecond, in every form read back.",
  over=["inputs"], quant="Every instant and form.",
  why="Tests convert a few instants.",
  files=["mt_metadata/common/mttime.py"],
  mech=[("parse", "mt_metadata/common/mttime.py")]),
]

NOT_APPLICABLE = [
 ("N01", "Equality after a round trip is a statement about run-time values (formatting precision, parsing, units); no sound static argument in reach bounds it. Its structural clauses are claimed separately: names (C23), pairing (C22), kinds (C21), defaults (C17), dropped values (C18), encodings (C05)."),
 ("N02", "Numerical results over all frequencies and coefficients; a static rule could only freeze the formula as it is written, which would alarm on equal rewrites."),
 ("N03", "Numerical results over arrays; only the index and cell agreement is visible in the source and claimed under C22."),
 ("N04", "Nanosecond arithmetic and leap-second tables are run-time values; only the independence from host zone and locale is visible in the source and claimed under C06."),
]
