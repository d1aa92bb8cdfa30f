import json, glob, ast, os, re
HEAD = r'''# Static verification of litgen

Every property is decided from the current source of `/repo/src` (tests excluded). Nothing of `/repo` is imported or executed by a
check: the sources are parsed, type-checked with mypy used as a library (so that names, attributes and call targets are resolved), and
interpreted *abstractly*. No solver is given paths, no program input is sampled. The verdict is a list of constructs
(file:line, rule, key) or "OK" with what was analysed; a check exits 1 with `VIOLATION property=Cxx replay=evidence/Cxx.violation.txt`
(the file lists the constructs and the rule applied), 3/4 when the analysis itself cannot run (a source which does not type-check or
parse) – never on a property verdict.

    check.py Cxx [--tier quick|thorough]     rules/cxx.py      the rule of each property
    vlib/                                    the analyses (below)
    known_findings.txt                       genuine defects: "known:" (not repaired, printed as KNOWN-FINDING) and "fixed:" (repaired in /repo)
    tools/mut.py + mutants/Cxx.py            edits of the sources, made in memory, on which a rule must fire / must stay quiet
    seeded/                                  planted bugs (patch, demonstration); no check reads them
    tools/gen_properties.py, gen_manifest.py, not_applicable.py    produce properties.jsonl and MANIFEST.json

`quick` analyses the whole source (all functions, all paths: it is not a sample). `thorough` is the same decision, followed by a
measure of its sensitivity: the edits of `mutants/Cxx.py` are applied in memory to the *current* sources and the outcome is recorded in
the evidence (`self_test`); it cannot change the verdict. There is no deeper bound to explore: the abstractions are over all inputs.

## Why static analysis reaches what the tests do not

litgen's tests compare generated texts with literals for a few hundred small C++ snippets. What a user relies on quantifies over every
C++ API, every combination of some hundred options, both binding libraries, any number of generators in one process, any order of
queries on a parsed tree, any failure in between. Those are universal statements about *code paths* (who writes to the caller's options,
which literal can reach nanobind output, which path through the loop over children drops the child), which is what the abstract domains
below quantify over.

## The analyses (vlib)

| module | what it computes |
|---|---|
| project | parsed + mypy-typed program: functions, MRO, types of expressions, call targets (dynamic dispatch included), re-exports |
| effects | interprocedural mod/alias analysis over access paths (length 4): which pre-existing objects a function may modify; ownership of attributes, copies; `link_attrs`: attributes which link to something not owned (`parent`) |
| restore | save/change/restore typestate: is each change of something that outlives the call undone on every way out, exceptions included |
| purity | functions which depend on nothing but immutable arguments |
| taint | order/value taint with implicit flows (run to run variation) |
| spec | abstract evaluation of the whole program under an assumption ("library is nanobind", "this element matches this exclusion option", "this section is private", "this option is off"), with branch pruning and instantiation analysis: what can still run |
| flow | forward value flow of an expression through variables, attributes, containers, text operations |
| sx | structured path executor (all Python control structures), parameterised by a domain; used by definite assignment, consumption, handlers, leaks |
| trans | path-sensitive interpretation of one function into a transducer: texts and lists as sequences of known and opaque parts |
| ceval, rx | constant propagation of finite table domains through pure lookup functions; structure of regular expressions (what can stand at the edges of a match) |
| normal, inline | normal form of the sources before any analysis: temporaries naming a condition or a result, `format` / `%` with plain fields, and functions the repository did not have when the rules were written (`baseline_functions.json`), which are inlined where that is exact |
| guards, nonempty, definite | facts which hold at an expression; lower bounds of lengths; definite assignment |
| shared, par, report | results shared by several checks, forked analyses, findings / known findings / evidence |

Over-approximation is used where a violation is "something *may* happen" (effects, taint, spec), and it is kept quiet on correct code by
ownership, save/restore and purity proofs. Where precision is lost, a construct is *undecided* and counted in the evidence, not
reported; each rule's `LEVEL_NOTE` (copied in the manifest) names what that is.

'''
DETAIL = {
"C01": ("oracle: the options object the caller gave is not among the objects a run may modify. Enumerated: every write (assignment, deletion, augmented assignment, mutating method, setattr) reachable from the public API whose access path may start at a LitgenOptions / SrcmlcppOptions or at something it holds, and which the function did not create.",
        "Documented configuration methods of the options classes are roots of their own and exempt."),
"C02": ("oracle: nothing written by one generation to module-, class-, default-argument- or process-level state is read by another. Each such write must be of a constant, a memo of a function proved pure in its key, or one of the listed write-only statistics/progress widgets.",
        "State kept inside third-party modules is not seen."),
"C03": ("sources: set order, directory listings, concurrent results, clock, random, environment, process identity, addresses/hashes. Sinks: what the public API returns or writes. Order taint is removed by sorted() on a total key and by order-insensitive consumers.",
        "A sort whose key is not injective (length) keeps the taint."),
"C04": ("the generator is evaluated once per library from each entry point; a literal naming a construct of the other one must be unreachable or not flow to text; branches producing text for one library must not produce nothing for the other.", "User-provided text is not judged."),
"C05": ("the adapted class is evaluated with every section assumed private (then protected without opt-in): constructions of Adapted* of a member, text of a field reaching generated code, and use of a private base must be unreachable; the parser must give a section the access of its tag.", ""),
"C06": ("for each exclusion option the generator is evaluated under 'the element at hand matches this option': publishing it must be unreachable, wherever it was found; with all parameters excluded the adapted function has no parameter.",
        "The kind of text the option is about (function name, parameter type, member name ...) is a table in rules/c06.py: a call of the matcher with another kind of text is unknown."),
"C07": ("the two renderings (stub_lines, pydef_lines) of each adapted class are compared symbolically: lists of children walked (through copies, filters, partitions, appended lists, helpers), conditions which skip an element, expression written at the name position of each output template, naming function of parameters, access types of published bases, conditions around the shared named-constructor helper.",
        "Only elements and names are compared. A side which the analysis cannot resolve is not compared. Aliases (template synonyms 'X = Y') are not names."),
"C08": ("each adapter of parameters is interpreted into a transducer: per path through an iteration, what is appended to the call's arguments, to the visible parameters, to the input code; compared with 'exactly one argument per parameter, in order'.",
        "That the C++ conversion text converts the value correctly is not judged (N03)."),
"C09": ("boundaries: queries of the parsing library, constructors of adapted elements, renderings; each may only modify objects it made or owns a private copy of. Memo attributes and the parent link are not content.", ""),
"C10": ("template fillers are recognised by behaviour (constant propagation of their source on probes), each function filling a template is interpreted path by path; no slot left, nothing rescanned, no None inserted, only the lines of absent values removed.", "Tables with computed keys are undecided."),
"C11": ("each path through each loop over parsed children must store something made from the child, report it, or be pinned by an explicit tag test on a kind which is skipped on purpose; exception isolation of each construct.", "That *all* of the child is stored is not decided."),
"C12": ("the child attributes of each class are enumerated from its setters; each traversal method is interpreted path by path; same for the parent-setting visitor and the scope computation.", "Copies made by deepcopy are out of reach."),
"C13": ("each memoising function: the stored value's dependences (data and control, through resolved calls) must be covered by the key; reads and writes use the same key; setters forget; copies do not inherit; registries are keyed by qualified names.", "A memo split over several functions is followed only through the keyed store class; caches of descendants after a move are not followed."),
"C14": ("every change of something which outlives the call (option, class name, cwd, parent link, logging level) is followed by its restoration on each path to each way out.", ""),
"C15": ("the region writer is interpreted into a transducer over the lines of a file, compared state by state with the specification automaton; encodings; must-write on success paths; provenance of written paths.", "File system failures in the middle of a write are not modelled."),
"C16": ("each path through each handler raises, reports or yields a failure value that every caller examines; no exit(), no stdout, status of helper processes examined.", ""),
"C17": ("text of comments carries hazards (newline, quote, backslash, triple quote ...) which transformations remove or add; each sink's context is deduced from the adjacent constant text.", "Placeholders inside comments are C10's; word replacements given by the user are taken to keep text harmless."),
"C18": ("each option is live; regex-or-predicate values only reach a matcher accepting both forms; provenance of what an option is matched against; specialisation on 'this option is off' must make its text unreachable.", ""),
"C19": ("mypy + definite assignment + constant-index lower bounds + mutation while iterating + guarded conversions.", "Values typed Any, recursion depth and memory are out of scope."),
"C20": ("finite domains (numeric types, type letters, operators) folded through the tables and lookup functions; the folded relations are compared with each other and with the documented correspondence.", "User-added entries are not decided."),
"C21": ("built-in replacement tables folded; edges of each match guarded; order of rules; dynamic needles and prefix/suffix tests; scanners accept every identifier character.", "Needles are judged when named after an identifier."),
"C22": ("import graph at any depth; effects of import-time code; simulation of the import machinery with each module imported first.", ""),
"C23": ("the recursive inliner is interpreted into terms: visited test/registration on the canonical name, each line kept once, recursion handed the same lists.", ""),
"C24": ("typestate of each acquired file / temp / process over each way out; no shell.", ""),
"C25": ("terms of the functions assembling glue code, outputs and each API; each part exactly once, declarations first; predicate of glue code faithful.", ""),
}
import sys
sys.path.insert(0, "/verif")
props = {json.loads(l)["id"]: json.loads(l) for l in open("/verif/properties.jsonl")}
out = [HEAD, "## Properties and how each is decided\n\n"]
import runpy
for pid in sorted(props):
    if pid.startswith("N"):
        continue
    f = f"/verif/rules/{pid.lower()}.py"
    t = ast.parse(open(f).read())
    doc = ast.get_docstring(t) or ""
    note = tech = ""
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id == "TECHNIQUE": tech = ast.literal_eval(n.value)
            if n.targets[0].id == "LEVEL_NOTE": note = ast.literal_eval(n.value)
    ms = runpy.run_path(f"/verif/mutants/{pid}.py")["MUTANTS"] if os.path.exists(f"/verif/mutants/{pid}.py") else []
    nf, nq = sum(1 for m in ms if m[1] == "fire"), sum(1 for m in ms if m[1] != "fire")
    ev = json.load(open(f"/verif/evidence/{pid}.json")) if os.path.exists(f"/verif/evidence/{pid}.json") else {}
    d, b = DETAIL[pid]
    out.append(f"### {pid} – {props[pid]['title']}\n\n{props[pid]['statement']}\n\n**Technique.** {tech}.\n\n**Decision.** {d}\n\n```\n{doc.split(chr(10), 1)[1].strip() if chr(10) in doc else doc}\n```\n\n"
               f"**Bounds.** {note} {b}\n\n**Why beyond tests.** {props[pid]['why_tests_cant']}\n\n"
               f"**Self-test edits:** {nf} which must be reported, {nq} which must not. \n\n")
na = runpy.run_path("/verif/tools/not_applicable.py")
NA = next(v for k, v in na.items() if k.isupper() and isinstance(v, dict))
out.append("## Not applicable to this family\n\n")
for k, v in NA.items():
    out.append(f"* **{k} {props[k]['title']}** – {v}\n")
out.append("\n## Planted bugs, and what catches them\n\nEach was written from the text of its property, builds, passes the stable tests, and has a demonstration. All are caught by the check of their own property "
           "(an earlier version of each rule missed several of them: see 'Strengthened').\n\n| planted bug | check | what it breaks | needs |\n|---|---|---|---|\n")
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(f)); out.append(f"| {f.split('/')[3]} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |\n")
out.append(open("/verif/tools/design_tail.md").read())
out.append("\n## Genuine defects of litgen found by the checks\n\n(the list the checks use is known_findings.txt)\n\n")
for l in open("/verif/known_findings.txt"):
    l = l.strip()
    if l and not l.startswith("#"):
        m = re.match(r"(\w+): property=(C\d+) (\S+)(.*)", l)
        out.append(f"* {m.group(1)} {m.group(2)} " + (f"`{m.group(3)}`" if m.group(1) == "fixed" else m.group(3)) + f"{m.group(4)}\n")
open("/verif/DESIGN.md", "w").write("".join(out))
print(len("".join(out)))
