"""C18: every option is honoured, and only where it applies.

(live)     each public option is read, with a use of the value, in code which the public entry points reach
(form)     a value declared as 'regex or predicate' only goes to the matcher which accepts both forms (or is compared, tested); the matcher
           itself gives the word to the predicate and searches the regex in the word
(kind)     what an option is matched against (or applied to) is the kind of text the option is about; the provenance of both sides is computed
           by abstract interpretation from the public entry points
(effect)   when an option never matches (is off), the text it is there to produce is not evaluated on any path; same for the pairs of options
           told apart by what the element is (pointer or reference, const or not, class or struct, copy or deep copy)
(adapter)  an option which, when off, disables an adapter of parameters does not disable an unrelated one"""
from __future__ import annotations

import ast
import re
from typing import Any, Callable, Optional

from rules.c04 import roots
from rules.c06 import MATCHER, follow
from vlib.flow import Flow
from vlib.par import parallel
from vlib.project import Func, Project
from vlib.report import Report
from vlib.spec import BOOL, FALSE, K, TOP, TRUE, Hook, S, Spec, V, const, join, sym, BOT

TECHNIQUE = "abstract interpretation from the public entry points (symbolic provenance of options and of what they are matched against; specialisation on 'this option is off'), interprocedural value flow of regex-or-predicate values, liveness of option reads"
LEVEL_NOTE = "The effect of an option is judged by the text it is documented to produce being unreachable when the option is off; the converse (the text always appears when it is on) is only judged through the liveness of the option."

NAMES = {"class_name", "function_name", "enum_name", "ns_name", "decl_name", "macro_name", "cpp_type", "return_type", "superclass_name"}

FN, CLS, DECL, ENUM, NS, MACRO, TYPE = "a function", "a class", "a variable or member", "an enum", "a namespace", "a macro", "a type"
TAILS: list[tuple[str, str]] = [("function_name", FN), ("class_name", CLS), ("decl_name", DECL), ("enum_name", ENUM), ("ns_name", NS), ("macro_name", MACRO),
                                ("cpp_type.str_code()", TYPE), ("return_type.str_code()", TYPE)]
# what the option is about, by the beginning of its name
ABOUT: list[tuple[str, set[str]]] = [
    ("fn_exclude_by_param_type", {TYPE}), ("fn_params_exclude_types", {TYPE}), ("fn_params_exclude_names", {DECL}), ("fn_params_buffer_size_names", {DECL}),
    ("fn_params_type_replacements", {TYPE}), ("fn_namespace_vectorize", {NS}), ("function_names_replacements", {FN}), ("var_names_replacements", {DECL}),
    ("namespace_names_replacements", {NS}), ("macro_name_replacements", {MACRO}), ("type_replacements", {TYPE, CLS, ENUM}), ("value_replacements", {DECL}),
    ("member_exclude_by_type", {TYPE}), ("member_readonly_by_type", {TYPE}), ("member_exclude_by_name_and_class", {DECL, FN}), ("member_", {DECL}),
    ("class_", {CLS}), ("struct_", {CLS}), ("enum_", {ENUM}), ("macro_define", {MACRO}), ("globals_vars", {DECL}), ("namespace_exclude", {NS}), ("fn_", {FN}),
]
# an option about parameters of functions, and about nothing else
PARAM_ONLY = ("fn_params_",)


def about(opt: str) -> Optional[set[str]]:
    for k, v in ABOUT:
        if opt.startswith(k):
            return v
    return None


def kind_of(w: Optional[str]) -> Optional[str]:
    if w is None:
        return None
    for t, k in TAILS:
        if w == t or w.endswith("." + t):
            return k
    return None


class Effect:
    def __init__(self, name: str, tokens: str, off: tuple[str, ...] = (), on: tuple[str, ...] = (), calls: Optional[dict[str, bool]] = None, element: str = "", true: tuple[str, ...] = (),
                 whole: bool = False):
        self.name, self.tokens, self.off, self.on, self.calls, self.element, self.true, self.whole = name, re.compile(tokens), off, on, calls or {}, element, true, whole


RW = r"def_readwrite|def_rw"
EFFECTS = [
    Effect("class_dynamic_attributes__regex", "dynamic_attr", ("class_dynamic_attributes__regex",)),
    Effect("class_held_as_shared__regex", "std::shared_ptr<", ("class_held_as_shared__regex",)),
    Effect("enum_make_arithmetic__regex", r"arithmetic\(\)|IntEnum|IntFlag", ("enum_make_arithmetic__regex",)),
    Effect("enum_make_flag__regex", r"is_flag\(\)|enum\.IntFlag|enum\.Flag", ("enum_make_flag__regex",)),
    Effect("fn_add_gil_scoped_release_guard__regex", "gil_scoped_release", ("fn_add_gil_scoped_release_guard__regex",)),
    Effect("fn_vectorize__regex", r"py::vectorize", ("fn_vectorize__regex",)),
    Effect("fn_namespace_vectorize__regex", r"py::vectorize", ("fn_namespace_vectorize__regex",)),
    Effect("class_copy__regex", r"^copy\.copy$", ("class_copy__regex",)),
    Effect("class_deep_copy__regex", r"^copy\.deepcopy$", ("class_deep_copy__regex",)),
    Effect("class_copy_add_info_in_stub", r"^copy\.(deep)?copy$|has support for", ("class_copy_add_info_in_stub",)),
    Effect("enum_export_values", "export_values", ("enum_export_values",)),
    Effect("class_expose_protected_methods__regex", r"class \{publicist_class_name\}", ("class_expose_protected_methods__regex",)),
    Effect("class_override_virtual_methods_in_python__regex", "_trampoline", ("class_override_virtual_methods_in_python__regex",)),
    Effect("fn_template_decorate_in_stub", "template specializations for function", ("fn_template_decorate_in_stub",)),
    Effect("class_template_decorate_in_stub", "template specializations for class", ("class_template_decorate_in_stub",)),
    Effect("fn_params_replace_c_string_list__regex", "_adapt_c_string_list", ("fn_params_replace_c_string_list__regex",)),
    Effect("fn_params_replace_buffer_by_array__regex", "_adapt_c_buffers", ("fn_params_replace_buffer_by_array__regex",)),
    Effect("fn_params_output_modifiable_immutable_to_return__regex", "_adapt_modifiable_immutable_to_return|^std::tuple<", ("fn_params_output_modifiable_immutable_to_return__regex",)),
    Effect("fn_params_adapt_mutable_param_with_default_value__regex", "_adapt_mutable_param_with_default_value",
           ("fn_params_adapt_mutable_param_with_default_value__regex", "fn_params_adapt_mutable_param_with_default_value__to_autogenerated_named_ctor")),
    Effect("fn_params_const_char_pointer_with_default_null", "_adapt_const_char_pointer_with_default_null", ("fn_params_const_char_pointer_with_default_null",)),
    Effect("fn_params_replace_modifiable_immutable_by_boxed__regex", "_adapt_modifiable_immutable$", ("fn_params_replace_modifiable_immutable_by_boxed__regex",)),
    Effect("fn_params_replace_c_array_modifiable_by_boxed__regex (modifiable array)", "_adapt_fixed_size_c_arrays", ("fn_params_replace_c_array_modifiable_by_boxed__regex",), calls={"is_const": False}),
    Effect("fn_params_replace_c_array_const_by_std_array__regex (const array)", "_adapt_fixed_size_c_arrays", ("fn_params_replace_c_array_const_by_std_array__regex",), calls={"is_const": True}),
    Effect("fn_params_exclude_names__regex, fn_params_exclude_types__regex", "_adapt_exclude_params", ("fn_params_exclude_names__regex", "fn_params_exclude_types__regex")),
    Effect("fn_force_lambda__regex", "_adapt_force_lambda", ("fn_force_lambda__regex",)),
    Effect("struct_create_default_named_ctor__regex (struct)", "^Auto-generated default constructor with named params$", ("struct_create_default_named_ctor__regex",), ("class_create_default_named_ctor__regex",),
           element="CppStruct"),
    Effect("class_create_default_named_ctor__regex (class)", "^Auto-generated default constructor with named params$", ("class_create_default_named_ctor__regex",), ("struct_create_default_named_ctor__regex",),
           element="CppClass"),
    Effect("fn_return_force_policy_reference_for_pointers__regex (pointer)", "^reference$", ("fn_return_force_policy_reference_for_pointers__regex",),
           ("fn_return_force_policy_reference_for_references__regex",), calls={"returns_pointer": True, "returns_reference": False}),
    Effect("fn_return_force_policy_reference_for_references__regex (reference)", "^reference$", ("fn_return_force_policy_reference_for_references__regex",),
           ("fn_return_force_policy_reference_for_pointers__regex",), calls={"returns_pointer": False, "returns_reference": True}),
    Effect("member_readonly_by_name__regex", RW, (), ("member_readonly_by_name__regex",), whole=True),
    Effect("member_readonly_by_type__regex", RW, (), ("member_readonly_by_type__regex",), whole=True),
    Effect("original_signature_flag_show", "original C\\+\\+ signature", ("original_signature_flag_show",)),
    Effect("macro_define_include_by_name__regex", "^$.", ("macro_define_include_by_name__regex",)),
]


def realm(e: Effect) -> str:
    n = e.name
    return "params" if n.startswith("fn_params") else "class" if n.startswith(("class_", "struct_")) else n.split("_")[0]


class Group:
    """options about different kinds of things, which are off in the same run (what one of them produces does not depend on the others)"""

    def __init__(self) -> None:
        self.effects: list[Effect] = []
        self.off: set[str] = set()
        self.on: set[str] = set()
        self.calls: dict[str, bool] = {}
        self.element = ""

    def accepts(self, e: Effect) -> bool:
        if e.calls and any(realm(x) in ("fn", "params") for x in self.effects) or self.calls and realm(e) in ("fn", "params"):
            return False
        if e.element and any(realm(x) in ("class", "member") for x in self.effects) or self.element and realm(e) in ("class", "member"):
            return False
        return all(realm(x) != realm(e) for x in self.effects)

    def add(self, e: Effect) -> None:
        self.effects.append(e)
        self.off |= set(e.off)
        self.on |= set(e.on)
        self.calls.update(e.calls)
        self.element = self.element or e.element


def grouped(effects: list[Effect], apart: bool) -> list[Group]:
    out: list[Group] = []
    for e in effects:
        g = next((g for g in out if not apart and g.accepts(e)), None)
        if g is None:
            g = Group()
            out.append(g)
        g.add(e)
    return out


class Obs(Hook):
    def __init__(self, p: Project, e: Optional[Group], declared: set[str]):
        self.p, self.e, self.declared = p, e, declared
        self.seen: dict[ast.AST, tuple[Func, set[tuple[str, str]]]] = {}
        self.consulted: set[str] = set()
        self.emitted: dict[tuple[str, ast.AST], Func] = {}

    def attr(self, s: Spec, f: Func, node: ast.Attribute, base: V) -> Any:
        b = sym(base)
        if node.attr in self.declared and (b is None or not b.startswith("opt:")):
            if self.e is not None and node.attr in self.e.off and not node.attr.endswith("regex"):
                self.consulted.add(node.attr)
                return FALSE
            return S("opt:" + node.attr)
        if b is not None:
            return S(b + "." + node.attr)
        if base is TOP and node.attr in NAMES:
            return S(node.attr)
        return NotImplemented

    def emit(self, s: Spec, f: Func, node: ast.AST, v: V) -> None:
        if self.e is not None and v is not TOP:
            for e in self.e.effects:
                if e.whole and any(isinstance(x, K) and isinstance(x.v, str) and e.tokens.search(x.v) for x in v):
                    self.emitted.setdefault((e.name, node), f)

    def test(self, s: Spec, f: Func, node: ast.expr, env: dict) -> Any:
        if self.e is None or not self.e.element:
            return NotImplemented
        kinds = {"CppStruct", "CppClass"}
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
            for a, b in ((node.left, node.comparators[0]), (node.comparators[0], node.left)):
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "type" and isinstance(b, (ast.Name, ast.Attribute)):
                    n = b.id if isinstance(b, ast.Name) else b.attr
                    if n in kinds:
                        return const((n == self.e.element) == isinstance(node.ops[0], (ast.Is, ast.Eq)))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "isinstance" and len(node.args) == 2 and isinstance(node.args[1], ast.Name):
            if node.args[1].id == "CppClass":
                return const(self.e.element == "CppClass")
        return NotImplemented

    def result(self, s: Spec, f: Func, node: Any, fv: V, args: dict) -> Any:
        b = sym(fv)
        if b is None:
            return NotImplemented
        if b.startswith("opt:"):
            if b.endswith(".apply") and isinstance(node, ast.Call):
                self.note(f, node, b[4:-6], sym(args.get(0, TOP)))
            if b.endswith((".get", ".pop")) or isinstance(node, ast.Subscript):
                return S("val:" + (b[4:].split(".")[0]))
            return NotImplemented
        if b.startswith("val:"):
            return NotImplemented
        return S(b + ("[]" if isinstance(node, ast.Subscript) else "()"))

    def note(self, f: Func, node: ast.AST, opt: str, word: Optional[str]) -> None:
        self.seen.setdefault(node, (f, set()))[1].add((opt, word or ""))

    def call(self, s: Spec, f: Func, node: ast.Call, targets: list[Func], ext: str, args: dict) -> Any:
        g = next((t for t in targets if t.name == MATCHER), None)
        if g is not None:
            v = args.get(0, args.get(g.params[0], TOP))
            word = sym(args.get(1, args.get(g.params[1], TOP)))
            alts = [sym(frozenset([x])) for x in v] if v is not TOP else []
            opts = {a[4:] for a in alts if a is not None and a.startswith(("opt:", "val:"))}
            for o in opts:
                self.note(f, node, o, word)
            if self.e is not None and opts and len(opts) == len(alts):
                self.consulted |= opts & (set(self.e.off) | set(self.e.on))
                if opts <= set(self.e.off):
                    return FALSE
                if opts <= set(self.e.on):
                    return TRUE
            return BOOL
        if self.e is not None:
            for t in targets:
                if t.name in self.e.calls:
                    return const(self.e.calls[t.name])
        return NotImplemented


def produced(text: str) -> str:
    """a table of replacements produces what follows the arrows"""
    if " -> " in text and all(" -> " in l for l in text.split("\n") if l.strip()):
        return "\n".join(l.split(" -> ", 1)[1] for l in text.split("\n") if l.strip())
    return text


def literals(p: Project, e: Effect) -> list[tuple[Any, ast.Constant]]:
    out = []
    for m in p.modules.values():
        if not m.name.startswith(("litgen", "codemanip")) or m.name == "litgen.options":
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and e.tokens.search(produced(n.value)) and not isinstance(p.parent_of.get(n), ast.Expr):
                if p.enclosing_func(n) is not None:
                    out.append((m, n))
    return out


def inert(p: Project, fl: Flow, m: Any, n: ast.AST) -> bool:
    return not any(u.kind in ("emit", "extern", "method", "called", "attribute", "stored", "concat") for u in fl.uses(m, n))


def effect(p: Project, g: Group, rs: list[Func], fol: set[str], tops: tuple, declared: set[str], base: set[ast.AST]) -> tuple[Report, dict[str, set[str]]]:
    rep = Report("C18", "")
    missing = [o for o in sorted(g.off | g.on) if o not in declared]
    if missing:
        rep.notes.append(f"no option named {missing}: not judged")
        ng = Group()
        for e in g.effects:
            if not set(e.off + e.on) & set(missing):
                ng.add(e)
        if not ng.effects:
            return rep, {}
        g = ng
    h = Obs(p, g, declared)
    s = Spec(p, h, tops, fol).run(rs)
    fl = Flow(p, within=set(s.reached))
    for e in g.effects:
        rep.count("options_assumed_off")
        found = 0
        for m, n in literals(p, e):
            if n not in base:
                continue
            found += 1
            if e.whole:
                continue
            if n in s.reached and not inert(p, fl, m, n):
                f = p.enclosing_func(n)
                what = "is off" if e.off and not e.on else "applies" if not e.off else "is off (and its counterpart is on)"
                rep.add("effect", f"{e.name}: {f.qual if f else m.name}", f"{m.rel}:{n.lineno}", f"{n.value.strip()[:50]!r} may be generated when {e.name} {what} ({s.chain(n)})")
        for (en, n), f in sorted(h.emitted.items(), key=lambda x: (x[1].qual, getattr(x[0][1], "lineno", 0))):
            if en == e.name:
                rep.add("effect", f"{e.name}: {f.qual}", f.loc(n), f"text matching {e.tokens.pattern!r} may be generated although {e.name} applies ({s.chain(n)})")
        rep.count("texts_controlled", found)
        if found:
            rep.sample(f"{e.name}: {found} texts unreachable ({len(s.reached_functions())} functions reached)")
    # adapters which can no longer do anything
    rets: dict[Func, V] = {}
    for c in s.ctxs.values():
        a = getattr(c.f.node, "returns", None)
        if a is not None and "LambdaAdapter" in ast.unparse(a) and c.f.cls is None:
            rets[c.f] = join(rets.get(c.f, BOT), c.ret)
    off = {f.module.name for f, v in rets.items() if v == const(None)}
    owners = [e for e in g.effects if realm(e) == "params"] or [e for e in g.effects if realm(e) == "fn"] or g.effects
    return rep, {owners[0].name: off}


def option_classes(p: Project) -> dict[str, dict[str, tuple[str, ast.AST]]]:
    out: dict[str, dict[str, tuple[str, ast.AST]]] = {}
    for k in ("LitgenOptions", "SrcmlcppOptions"):
        c = p.cls(k)
        d: dict[str, tuple[str, ast.AST]] = {}
        for t in c.node.body:
            if isinstance(t, ast.AnnAssign) and isinstance(t.target, ast.Name):
                d[t.target.id] = (ast.unparse(t.annotation), t)
            elif isinstance(t, ast.Assign) and len(t.targets) == 1 and isinstance(t.targets[0], ast.Name):
                d[t.targets[0].id] = ("", t)
        out[c.full] = {k2: v for k2, v in d.items() if not k2.startswith("_")}
    return out


def run(p: Project, tier: str) -> Report:
    rep = Report("C18", "each option is read live where the public API leads, in both of its forms, and only about the kind of things it is documented for; off, it has no effect")
    rs = roots(p)
    fol = follow(p)
    opts = option_classes(p)
    declared = {o for d in opts.values() for o in d}
    tops = (p.cls("LitgenOptions").full, p.cls("SrcmlcppOptions").full)
    rep.count("options", len(declared))
    h = Obs(p, None, declared)
    s = Spec(p, h, tops, fol).run(rs)
    rep.count("functions_reached", len(s.reached_functions()))
    base = set(s.reached)

    live(p, rep, s, opts)
    form(p, rep, opts)
    kinds(p, rep, h, s)

    gates: dict[str, set[str]] = {}
    for r, g in parallel([lambda e=e: effect(p, e, rs, fol, tops, declared, base) for e in grouped(EFFECTS, tier == "thorough")]):
        rep.merge(r)
        gates.update(g)
    always = set.intersection(*[v for v in gates.values()]) if gates else set()
    for o, mods in sorted(gates.items()):
        mods = mods - always
        rep.count("adapter_gates", len(mods))
        if len(mods) > 1:
            for m in sorted(mods):
                if not related(p, o, m):
                    rep.add("adapter", f"{o}: {m.split('.')[-1]}", "src/" + m.replace(".", "/") + ".py", f"{o}, when off, also disables the adapter of {m}, which it is not about")
    rep.need("options", 60)
    rep.need("matched_pairs", 40)
    rep.need("texts_controlled", 20)
    rep.assumptions = ["options documented for the validation of the options themselves (check_options_consistency) do not count as honoured by it"]
    return rep


def related(p: Project, opt: str, mod: str) -> bool:
    w = {x for x in re.split(r"_+", opt.split(" ")[0]) if x not in {"fn", "params", "regex", "adapt", "with", "by", "to", "replace"}}
    return len(w & set(mod.split(".")[-1].split("_"))) >= 2


def live(p: Project, rep: Report, s: Spec, opts: dict[str, dict[str, tuple[str, ast.AST]]]) -> None:
    fl = Flow(p, (MATCHER,))
    for full, d in opts.items():
        own = {f for f in p.funcs.values() if f.cls is not None and f.cls.full == full}
        validators = {f for f in own if f.name == "__init__" or not any(isinstance(n, ast.Return) and n.value is not None for n in p.own_nodes(f))}
        reads: dict[str, list[tuple[Func, ast.Attribute]]] = {o: [] for o in d}
        for m in p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and n.attr in reads and isinstance(n.ctx, ast.Load) and (n in s.reached or m.name.startswith("srcmlcpp") and "tests" not in m.name):
                    f = p.enclosing_func(n)
                    if f is not None and f not in validators and not any(f.qual.startswith(v.qual + ".") for v in validators):
                        reads[n.attr].append((f, n))
        for o, rd in d.items() and reads.items():
            used = 0
            for f, n in rd:
                if any(u.kind not in ("drop",) for u in fl.uses(f.module, n)):
                    used += 1
            rep.count("option_reads", used)
            if not used:
                dead = "read but never used" if rd else "never read"
                rep.add("live", f"{o}", f"src/{'litgen/options' if o in opts[p.cls('LitgenOptions').full] else 'srcmlcpp/srcmlcpp_options'}.py:{opts[full][o][1].lineno}",
                        f"option {o} is {dead} by the code which generates or parses")


def form(p: Project, rep: Report, opts: dict[str, dict[str, tuple[str, ast.AST]]]) -> None:
    fl = Flow(p, (MATCHER,))
    names = {o for d in opts.values() for o, (a, _) in d.items() if "RegexOrMatcher" in a}
    dicts = {o for d in opts.values() for o, (a, _) in d.items() if "RegexOrMatcher" in a and a.startswith(("dict", "Dict"))}
    fields: dict[str, set[str]] = {}
    for c in p.classes.values():
        for t in c.node.body:
            if isinstance(t, ast.AnnAssign) and isinstance(t.target, ast.Name) and "RegexOrMatcher" in ast.unparse(t.annotation):
                fields.setdefault(t.target.id, set()).add(c.full)
    matcher = [f for f in p.funcs.values() if f.name == MATCHER and f.cls is None]
    for m in p.modules.values():
        if "tests" in m.name or "autogenerate" in m.name:
            continue
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and (n.attr in names or n.attr in fields)):
                continue
            f = p.enclosing_func(n)
            if f is None or (f.cls is not None and f.cls.name in ("LitgenOptions", "SrcmlcppOptions")):
                continue
            rep.count("reads_of_regex_or_predicate")
            start: list[ast.AST] = [n]
            if n.attr in dicts:
                start = []
                par = p.parent_of.get(n)
                if isinstance(par, ast.Subscript) and par.value is n:
                    start = [par]
                elif isinstance(par, ast.Attribute) and par.attr in ("get", "pop", "setdefault"):
                    start = [p.parent_of[par]]
            for st in start:
                for u in fl.uses(m, st):
                    if u.kind == "passed" and u.detail[1] in (0, matcher[0].params[0] if matcher else "rule"):
                        rep.count("regex_or_predicate_given_to_the_matcher")
                        continue
                    if u.kind in ("test", "compare", "drop", "log", "raise", "inspect", "stored") or (u.kind == "emit" and u.detail in ("container",)):
                        continue
                    g = p.enclosing_func(u.node)
                    if g is not None and (g.cls is not None and g.cls.name in ("LitgenOptions", "SrcmlcppOptions")):
                        continue
                    if guarded_by_isinstance(p, u.node):
                        continue
                    rep.add("form", f"{n.attr} in {f.qual}: {u.kind}", f"{u.mod.rel}:{getattr(u.node, 'lineno', n.lineno)}",
                            f"{n.attr} may be a predicate or a regex, but it is used here in one form only ({u.kind} {u.detail or ''})")
    # the matcher itself
    for g in matcher:
        rule, word = g.params[0], g.params[1]
        pred = rx = False
        for n in p.own_nodes(g):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id == rule:
                    pred = pred or (len(n.args) == 1 and isinstance(n.args[0], ast.Name) and n.args[0].id == word)
                elif len(n.args) + len(n.keywords) >= 2:
                    a = [x.id if isinstance(x, ast.Name) else "" for x in list(n.args) + [k.value for k in n.keywords]]
                    rx = rx or (rule in a and word in a)
        rep.count("matchers")
        if not pred:
            rep.add("form", f"{g.qual}: predicate", g.loc(), "a predicate is not called with the word to match")
        if not rx:
            rep.add("form", f"{g.qual}: regex", g.loc(), "a regex is not searched in the word to match")
        seen: set[Func] = set()
        todo = [g]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            for n in p.own_nodes(k):
                if isinstance(n, ast.Call):
                    todo += [t for t in p.callees(k.module, n)[0] if t.module.name == g.module.name]
                    a = n.func.attr if isinstance(n.func, ast.Attribute) else ""
                    if a in ("match", "fullmatch", "split", "sub"):
                        rep.add("form", f"{k.qual}: {a}", k.loc(n), f"regexes of the options are documented to be searched anywhere in the name; {a} is used")


def guarded_by_isinstance(p: Project, n: ast.AST) -> bool:
    x: Optional[ast.AST] = n
    while x is not None and not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
        q = p.parent_of.get(x)
        if isinstance(q, (ast.If, ast.IfExp)) and x is not q.test and any(isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ("isinstance", "callable") for t in ast.walk(q.test)):
            return True
        x = q
    return False


def kinds(p: Project, rep: Report, h: Obs, s: Spec) -> None:
    for node, (f, pairs) in sorted(h.seen.items(), key=lambda x: (x[1][0].qual, x[0].lineno)):
        for opt, word in sorted(pairs):
            allowed = about(opt)
            k = kind_of(word)
            if allowed is None:
                continue
            if k is None and word and word.endswith(".str_code()"):
                rep.add("kind", f"{opt}: {word} in {f.qual}", f.loc(node), f"option {opt}, about {' or '.join(sorted(allowed))}, is consulted with a whole piece of code ({word}), not with a name ({s.chain(node)})")
                continue
            if k is None:
                rep.count("pairs_with_a_derived_text")
                continue
            rep.count("matched_pairs")
            if k not in allowed:
                rep.add("kind", f"{opt}: {word} in {f.qual}", f.loc(node), f"option {opt}, about {' or '.join(sorted(allowed))}, is consulted with the name of {k} ({s.chain(node)})")
            elif opt.startswith(PARAM_ONLY) and not parameter_only(f):
                rep.add("kind", f"{opt}: {f.qual}", f.loc(node), f"option {opt}, about the parameters of functions, is consulted for something else ({s.chain(node)})")
            else:
                rep.sample(f"{opt} is matched against {word} in {f.qual}")


def parameter_only(f: Func) -> bool:
    """the function does not handle an enum, a class, a namespace... but functions and their parameters"""
    a = getattr(f.node, "args", None)
    if a is None:
        return True
    anns = " ".join(ast.unparse(x.annotation) for x in a.args if x.annotation is not None)
    return not re.search(r"Enum|Namespace|Define|CppStruct|CppClass\b", anns)
