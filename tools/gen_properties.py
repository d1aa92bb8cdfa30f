"""Writes /verif/properties.jsonl (one place to edit the properties)."""
import json, pathlib

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=n, meaning=m, where=w) for (n, m, w) in state],
                    "mechanism": [dict(name=n, where=w) for (n, w) in mechanism],
                    "observe_at": observe, "hook_needed": None}})


AT = "src/litgen/internal/adapted_types/"
AF = "src/litgen/internal/adapt_function_params/"
CT = "src/srcmlcpp/cpp_types/"

prop("C01", "Generating or parsing never modifies the caller's options",
     "Whatever the input, parsing C++ or generating bindings and stubs leaves the options object given by the caller, and everything it holds (lists, replacement tables, template and custom-binding registries), exactly as the caller configured it. Only the documented configuration methods of the options themselves may change them, so one options object can be reused for any number of generators and inputs.",
     ["inputs", "histories", "configurations"],
     "every C++ input, every options value, every sequence of generator / parser calls sharing an options object",
     "Each test builds a fresh options object and uses it once; a write performed while processing is only visible to a second use of the same object, in an order no test plays.",
     ["src/litgen/options.py", "src/srcmlcpp/srcmlcpp_options.py", "src/litgen/litgen_generator.py", "src/litgen/internal/custom_bindings.py", "src/litgen/internal/template_options.py", "src/srcmlcpp/srcmlcpp_main.py"],
     [("options are only read while processing; per-run state lives in the generation context", "src/litgen/internal/context/litgen_context.py")],
     ["the options object after code_to_stub / code_to_pydef / generate_code / code_to_cpp_unit"],
     [("LitgenOptions / SrcmlcppOptions", "user configuration", "src/litgen/options.py, src/srcmlcpp/srcmlcpp_options.py")])

prop("C02", "Generators in one process do not influence each other",
     "The result of a generation or parse depends only on its own inputs and options: no module-level, class-level, default-argument or memoised state written while processing one input is read when producing the output of another.",
     ["histories", "inputs"],
     "every sequence of generations and parses in one process, with any mix of inputs and options",
     "Test cases are short and independent; a leak shows only for particular pairs of inputs run in a particular order in one process.",
     ["src/litgen", "src/srcmlcpp", "src/codemanip"],
     [("state is held by per-run context objects", "src/litgen/internal/context/litgen_context.py")],
     ["outputs of two successive generations in the same process"])

prop("C03", "Output is a deterministic function of code and options",
     "For the same C++ code and options, the generated binding code, stubs and amalgamated headers are byte-identical in every run: independent of string hash seed, memory addresses, clock, environment variables, directory listing order and thread scheduling.",
     ["inputs", "configurations", "schedules"],
     "every input, every process (hash seed, time, environment, file-system order)",
     "The suite runs with one fixed hash seed on one machine, so every order that comes from hashing or from the file system is frozen while testing.",
     ["src/litgen", "src/srcmlcpp", "src/codemanip/amalgamated_header.py"],
     [("ordered containers (lists, insertion-ordered dicts) or explicit sorting wherever a collection is turned into output", "src/litgen/internal/context/litgen_context.py")],
     ["generated pydef, stub, glue code; amalgamated header"])

prop("C04", "Each binding library gets only its own API",
     "When nanobind is selected, the generated C++ binding code never contains a pybind11 construct, and when pybind11 is selected it never contains a nanobind construct, for every C++ input and every combination of the other options; both libraries are supported wherever one of them is.",
     ["inputs", "configurations"],
     "every C++ input and option combination, for each of the two binding libraries",
     "The integration library is compiled once per backend with one set of options; constructs on paths it does not take (vectorised functions, trampolines, adapters, rarely used options) are never seen for the other backend.",
     [AT + "adapted_function.py", AT + "adapted_class.py", AT + "adapted_enum.py", AT + "adapted_decl.py", AT + "adapted_namespace.py", AF, "src/litgen/internal/cpp_to_python.py", "src/litgen/litgen_generator.py"],
     [("options.bind_library is tested before emitting any backend specific text", AT)],
     ["generated pydef and glue code"])

prop("C05", "Only public (or opted-in protected) members are published",
     "A private member of a C++ class, and a protected one unless the user asked for that class's protected members to be published, never appears in the binding code nor in the stub: neither methods, constructors, fields, enums, nested classes nor operators; bases declared private are not declared as bases in the binding code nor in the stub. Override glue for virtual methods is not a publication.",
     ["inputs", "configurations"],
     "every class layout (struct/class default access, nesting, access section order) and option value",
     "Tests hold a few classes with one private section; the guarantee ranges over all kinds of member, each on its own code path.",
     [AT + "adapted_class.py", CT + "classes/cpp_struct.py", CT + "blocks/cpp_public_protected_private.py"],
     [("access-type filter applied before members are adapted", AT + "adapted_class.py")],
     ["generated pydef and stub"])

prop("C06", "What the user excludes never reaches the output",
     "An element (function, class, enum, variable, member, namespace, macro, parameter) which matches one of the user's exclusion options is neither bound by the C++ code nor declared in the stub, whatever the place it was found in (unit, namespace, class, nested or protected section) and whatever its comments and other options say (instantiations of a template are judged by the template's name and signature; override glue must still override excluded virtual methods).",
     ["inputs", "configurations"],
     "every exclusion option (regex or predicate), every kind of element and every nesting",
     "Each exclusion option is tested at one place with one element; the filters are repeated on several code paths.",
     ["src/litgen/options.py", AT + "adapted_block.py", AT + "adapted_class.py", AT + "adapted_function.py", AT + "adapted_enum.py", AT + "adapted_namespace.py"],
     [("exclusion tests guard the creation of every adapted element", AT + "adapted_block.py")],
     ["generated pydef and stub"])

prop("C07", "The stub and the binding code describe the same API",
     "Whatever is declared in the stub is bound by the C++ code and vice versa. Both outputs are produced from the same lists of adapted elements (public children, protected methods, template instantiations, elements of a namespace or file, enum values), an element of such a list is left out of one output only for a reason which the other output shares or because its kind has nothing to render there, and each kind of element renders itself in both outputs. The Python name written in the stub for a class, enum, enum value, function (vectorized or not), member, variable, macro, submodule or parameter is the one given to its binding. The base classes shown in the stub are those given to the binding (public and protected ones), and the named constructor is added to both outputs under the same condition.",
     ["inputs", "configurations"],
     "every input and option combination, every kind of adapted element",
     "Tests compare each output with a separate literal for a few inputs; nothing relates the two outputs for other inputs or options.",
     [AT, "src/litgen/internal/cpp_to_python.py"],
     [("each adapted element renders both outputs; names come from shared naming functions", AT + "adapted_element.py")],
     ["stub versus pydef"])

prop("C08", "Adapted functions forward every argument once and in order",
     "When a C++ function signature is adapted (buffers, arrays, string lists, boxed or returned immutables, mutable defaults, variadics, null strings, excluded parameters), the generated wrapper passes to the original function each of its parameters exactly once, in the original order, and parameters the adapter does not concern are left unchanged.",
     ["inputs", "configurations"],
     "every function signature (number, order, kind and default value of parameters) and every combination of adapters",
     "Signatures are unbounded and adapters compose; the tests cover a few signatures per adapter, mostly one adapter at a time.",
     [AF],
     [("one pass over the parameter list; each iteration appends the adapted parameter and the matching call argument", AF + "_lambda_adapter.py")],
     ["generated pydef lambdas"])

prop("C09", "Adapting and rendering never alter the parsed C++ tree",
     "Producing bindings or stubs, rendering source code, or querying names and types from a parsed unit leaves the parsed tree unchanged, so that every later rendering or generation from the same tree gives what it would have given the first time; adapters work on their own copies.",
     ["histories", "inputs"],
     "every parsed unit, every sequence of queries, renderings and adaptations of it",
     "Tests render a tree once and compare text; an alteration is visible only to a later reader of the same node.",
     [CT, AT, AF],
     [("deep copies are made before adapting an element", AF + "apply_all_adapters.py"), ("structural copy preserving parent links", CT + "base/cpp_element.py")],
     ["str_code() of the unit before and after generation; two successive renderings"])

prop("C10", "Generated code never contains an unfilled template slot",
     "Code templates used to produce bindings, glue code or stubs are always completely filled: every slot of a template receives a value on every path that expands it, the lines of absent values (and only them) are removed and no text 'None' is inserted for one, and inserted values (comments, default values, names) are written verbatim: they are never searched for slots.",
     ["inputs", "configurations"],
     "every template and every path (options, kind of element) through the code which fills it",
     "Templates are assembled by conditional code; each combination of conditions is a different template and most are not exercised.",
     ["src/codemanip/code_utils.py", AT, AF],
     [("process_code_template / replace_in_string with an explicit replacement table", "src/codemanip/code_utils.py")],
     ["generated pydef, glue code and stub"])

prop("C11", "No C++ construct is lost without a word while parsing",
     "While parsing, every construct found in a block, class, enum, declaration, function or parameter list is stored in the tree, deliberately skipped because of a documented kind, or reported by a warning or an error carrying its location; a construct that cannot be handled costs only itself and never its valid neighbours.",
     ["inputs"],
     "every C++ source accepted by srcML, every kind of construct at every nesting level",
     "C++ has far more constructs than the tests; the unhandled ones are by definition not in the tests.",
     ["src/srcmlcpp/internal/cpp_types_parse.py", AT + "adapted_block.py", AT + "adapted_class.py"],
     [("tag dispatch with an error for unknown tags; per-child exception isolation emitting a warning", "src/srcmlcpp/internal/cpp_types_parse.py")],
     ["parsed unit, emitted warnings, raised exceptions"])

prop("C12", "Tree traversal and parent links cover the whole parsed tree",
     "Traversing a parsed unit visits each element that holds children, then its children between one 'before children' and one 'after children' event; an element is reported as the parent of everything stored in it, so scopes and qualified names are computed from a complete chain.",
     ["inputs"],
     "every kind of element and every way of storing a child in it",
     "Tests check traversal for a couple of units; each kind of child (template, super list, parameter, initial value...) is its own code path.",
     [CT, "src/srcmlcpp/internal/cpp_types_parse.py"],
     [("visit_cpp_breadth_first overridden by each container; fill_children_parents", CT + "blocks/cpp_block.py")],
     ["visitor events, parent attribute, cpp_scope()"])

prop("C13", "Remembered results are never stale",
     "A result which is remembered (scopes, qualified or terse types, per-scope replacements and members, compiled patterns) is identical to what recomputing it would give: it is remembered under everything it depends on (the scope asked for, the flags given), it is not carried over to copies which are then modified, it is forgotten when the parent or the types of the element are replaced, it is never modified in place, and two scopes which share a short name never share an entry.",
     ["inputs", "histories"],
     "every sequence of queries with different arguments and of modifications in between",
     "Cache bugs need a second query with another argument or after a change; tests query once.",
     [CT + "scope/scoped_element_cache.py", CT + "functions/cpp_function_decl.py", CT + "decls_types/cpp_decl.py", CT + "base/cpp_element.py", "src/litgen/internal/context/replacements_cache.py"],
     [("cache keyed by current scope; caches cleared on parent change", CT + "scope/scoped_element_cache.py")],
     ["with_qualified_types / with_terse_types / cpp_scope / generated code"])

prop("C14", "Temporary changes are undone on every way out",
     "Whenever processing temporarily changes something that outlives the call (an option, a class name, the working directory, a parent link, a logging level) it restores the previous value on every way out, including when an exception is raised in between.",
     ["fault_sequences", "inputs"],
     "every exception raised by anything called between the change and its restoration",
     "It takes an exception in the middle of the operation, then another use of the same object.",
     ["src/srcmlcpp/srcmlcpp_main.py", AT + "adapted_class.py", "src/litgen/validate_bindings_compilation/validate_bindings_compilation.py"],
     [("save / change / restore", "src/srcmlcpp/srcmlcpp_main.py")],
     ["state after a failing call"])

prop("C15", "Generated files: only the marked region changes, losslessly",
     "Writing generated code to disk replaces only the region between the markers of the target file, rewrites a file only when its content changes, always reads and writes text with an explicit lossless encoding, and never reports success when a requested file could not be produced; nothing but the requested outputs is written.",
     ["inputs", "fault_sequences"],
     "every content of the target file (markers missing or repeated, any encoding) and every output path",
     "Tests write to well-formed files with ASCII content under one locale.",
     ["src/codemanip/code_utils.py", "src/litgen/litgen_generator.py", "src/codemanip/amalgamated_header.py", "src/srcmlcpp/srcmlcpp_main.py"],
     [("write_generated_code_between_markers, write_text_file", "src/codemanip/code_utils.py")],
     ["files on disk, exceptions"])

prop("C16", "Failures surface; library code keeps stdout and the process",
     "A failure met while parsing or generating is raised to the caller or reported through the warning mechanism: it is never discarded silently and the library never terminates the interpreter; it writes nothing to standard output, which belongs to the caller (and to the command-line tools' results).",
     ["inputs", "fault_sequences"],
     "every failure at every point, every input",
     "Tests check results of successful runs; discarded errors and extra output leave no trace in them.",
     ["src/litgen", "src/srcmlcpp", "src/codemanip"],
     [("exceptions and emit_warning channel", "src/srcmlcpp/scrml_warning_settings.py")],
     ["exceptions, warnings, stdout of litgen / srcmlcpp"])

prop("C17", "Text from C++ comments cannot break the generated code",
     "The text of C++ comments is neutralised for the place where it is put in the generated code: inside a C++ string literal quotes, backslashes and line breaks are escaped; in a stub each of its lines is commented, or it is inside a docstring which it cannot close and in which no backslash starts an escape; and it is put nowhere else (except directives such as py::call_guard<...>()). Code which is shown as a comment (values of enumerators, arrays and global variables, original signatures, preprocessor conditions) never continues on a line which is not commented.",
     ["inputs"],
     "every comment text (quotes, backslashes, line breaks, comment tokens) for each kind of documented element",
     "Tests use plain-word comments; hostile text is unbounded and each kind of element has its own emission path.",
     [AT, "src/litgen/internal/cpp_to_python.py", "src/codemanip/code_utils.py"],
     [("comment_pydef_one_line / docstring escaping", "src/litgen/internal/cpp_to_python.py")],
     ["generated pydef and stub"])

prop("C18", "Every option is honoured, and only where it applies",
     "Every public option influences generation or parsing; an option documented as a regex or predicate is honoured in both forms wherever it is consulted; and an option about one kind of thing (a kind of name, of replacement, of adapter) is never consulted for another kind.",
     ["configurations", "inputs"],
     "every option and both forms of its value, at every place it is consulted",
     "There are about a hundred options, most tested with one value in one form, and crosstalk needs two options to be set at once.",
     ["src/litgen/options.py", "src/srcmlcpp/srcmlcpp_options.py", "src/codemanip/code_utils.py", "src/litgen/internal/cpp_to_python.py"],
     [("does_match_regex_or_matcher", "src/codemanip/code_utils.py")],
     ["effect of each option on the output"])

prop("C19", "No input makes generation die from a Python slip",
     "For every C++ input and option combination, generation either succeeds or fails with a litgen / srcmlcpp error about the input: it never aborts because a local variable was not assigned, an attribute, argument or name does not exist, an element is fetched from a collection that may not hold it (empty list, absent key or substring), a text is converted to a number without care, or a collection changed while being iterated, nor does it silently skip elements of such a collection.",
     ["inputs", "configurations"],
     "every path through every function of the tool",
     "The failing path needs a particular option value or input shape; most branches are executed with one configuration only.",
     ["src/litgen", "src/srcmlcpp", "src/codemanip"],
     [("definite assignment, resolved names and call signatures on every path", "src")],
     ["exceptions raised by generation"])

prop("C20", "Conversion tables are complete and agree with each other",
     "Tables that describe the same domain in different places (C++ numeric types and numpy type codes, C++ operators and Python special methods, fixed-size aliases, immutable types and their boxed forms) cover the same cases and give consistent answers: every C++ numeric type accepted for a buffer is dispatched to exactly its own type code, in both the plain and the templated form.",
     ["configurations", "inputs"],
     "every entry of each table, every pair of tables",
     "Tests exercise a few entries; the type code is also only checked at run time of compiled bindings.",
     [AF + "_adapt_c_buffers.py", AT + "operators.py", "src/litgen/options.py", "src/litgen/internal/cpp_to_python.py"],
     [("literal tables", "src/litgen/internal/cpp_to_python.py")],
     ["generated pydef and stub"])

prop("C21", "Text replacements only touch whole identifiers",
     "The built-in translations from C++ to Python (types, values, namespaces, macros) apply to whole identifiers: an identifier which merely contains a translated word is left intact, the order of the built-in rules never lets a shorter rule destroy what a longer one should match, and scanners which rewrite identifiers emit the rest of the text unchanged and in order. Tests that recognise a C++ word or an identifier (API prefix, scope, operator, class name) hold for that identifier only, not for a longer one which begins or ends with it.",
     ["inputs"],
     "every identifier or type expression in user code, every built-in rule",
     "User identifiers are unbounded; tests try names that do not collide.",
     ["src/litgen/internal/cpp_to_python.py", "src/codemanip/code_replacements.py", "src/codemanip/code_utils.py"],
     [("word-boundary anchored regular expressions", "src/litgen/internal/cpp_to_python.py")],
     ["types, values and comments in the stub"])

prop("C22", "The C++ parser and text tools stand alone",
     "The C++ parsing library works without the binding generator, and the text manipulation library works without either of them: importing or using a lower layer never imports a higher one, each module can be the first one imported, and importing any of them has no side effect on files, processes or the standard streams.",
     ["programs"],
     "every module and every import, including those inside functions",
     "Tests import everything in one process; a dependency in the wrong direction is invisible there.",
     ["src/codemanip", "src/srcmlcpp", "src/litgen"],
     [("package layering codemanip < srcmlcpp < litgen", "src")],
     ["imports"])

prop("C23", "Amalgamation inlines each local header exactly once",
     "The amalgamated header contains the full text of each reachable local header exactly once, before the text that includes it, for every include graph including diamonds and cycles; system includes are kept, and every line of every inlined file is preserved.",
     ["inputs"],
     "every include graph and every content of the headers",
     "Tests use one small acyclic set of headers.",
     ["src/codemanip/amalgamated_header.py"],
     [("set of already included files marked before recursion", "src/codemanip/amalgamated_header.py")],
     ["amalgamated header"])

prop("C24", "Scratch files and helper processes never outlive the call",
     "Every temporary file, open file handle and child process created while parsing or generating is released on every way out, success or failure, and user-provided text is never interpreted by a shell.",
     ["fault_sequences", "inputs"],
     "every failure between acquisition and release",
     "Leaks leave the results of a test unchanged.",
     ["src/srcmlcpp/internal/code_to_srcml.py", "src/codemanip", "src/litgen/validate_bindings_compilation"],
     [("context managers", "src")],
     ["temporary directory, open descriptors"])

prop("C25", "All generated parts reach the output of every API",
     "Glue code (boxed types, trampolines, publicist classes), custom bindings registered by the user and namespaces' code are emitted exactly once by each of the ways to obtain the generated code, in an order where declarations precede their uses, and the presence of glue code is reported faithfully.",
     ["inputs", "configurations", "histories"],
     "every generation API, every kind of additional code",
     "The integration tests use one API; the others are checked on inputs without glue code.",
     ["src/litgen/litgen_generator.py", "src/litgen/code_to_adapted_unit.py", AT + "adapted_unit.py", "src/litgen/internal/context/litgen_context.py"],
     [("adapted unit assembling glue code, pydef and stub", AT + "adapted_unit.py")],
     ["GeneratedCodes and written files"])

# ---- properties this family cannot decide
prop("N01", "The generated binding code compiles",
     "For every C++ API accepted without warning, the generated C++ binding code compiles with the selected binding library.",
     ["inputs", "configurations"], "every C++ API and option combination",
     "The integration library is one program.", ["src/litgen"],
     [("templates and adapters", AT)], ["C++ compiler verdict"])
prop("N02", "Parsed code is rendered back faithfully",
     "Rendering a parsed unit gives C++ code equivalent to the source (verbatim when asked for), for every source.",
     ["inputs"], "every C++ source", "Sources are unbounded; tests hold a few dozen.", ["src/srcmlcpp"],
     [("str_code / str_code_verbatim", CT)], ["str_code()"])
prop("N03", "Bound functions behave like the C++ functions",
     "Calling a bound function from Python has the effect and the result of the C++ function, for all argument values (buffers, strides, defaults, boxed values).",
     ["inputs"], "every call", "Tests call each function with a few values.", [AF],
     [("adapter templates", AF)], ["Python calls to compiled bindings"])
prop("N04", "Preprocessor regions are filtered as the options say",
     "Code inside a preprocessor region is parsed if and only if the header-guard / acceptance options say so, for every nesting of conditionals.",
     ["inputs", "configurations"], "every nesting of #if / #else / #endif", "Nestings are unbounded.",
     ["src/srcmlcpp/internal/filter_preprocessor_regions.py"],
     [("region stack", "src/srcmlcpp/internal/filter_preprocessor_regions.py")], ["parsed unit"])
prop("N05", "Generation terminates in time linear in the input",
     "Parsing and generation terminate for every input, in time roughly proportional to its size.",
     ["inputs"], "every input", "Tests use small inputs.", ["src"],
     [("single traversals", "src")], ["elapsed time"])

pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text(
    "".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P), encoding="utf-8")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P), "properties")
