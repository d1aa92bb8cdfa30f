"""C06: what the user excludes never reaches the output.

For each exclusion option, the generator is evaluated abstractly from its public entry points under the assumption that the element
at hand matches that option (vlib.spec): a call to the matcher with this option is true when what is matched is the kind of text the
option is about (the name of the function, the code of the type of a parameter, ...), unknown otherwise. Objects which publish an
element (Adapted*) are followed: their methods run only once such an object can be made. Then
(published)  no object publishing that kind of element is ever made, wherever the element was found
(text)       the text of an excluded member never becomes part of generated code (constructor with named parameters)
(parameter)  the parameters of the adapted function, when all of its parameters match, are an empty list; the adapter does not give up"""
from __future__ import annotations

import ast
from typing import Any, Callable, Optional

from rules.c04 import roots
from vlib.project import Func, Project
from vlib.flow import Flow
from vlib.par import parallel
from vlib.report import Report
from vlib.spec import BOOL, EMPTY, FALSE, TOP, TRUE, Hook, S, Spec, V, const, sym

TECHNIQUE = "abstract interpretation specialised on 'the element matches this exclusion option' (interprocedural, path-sensitive, with instantiation analysis of the classes which publish elements): the constructions which publish the element must be unreachable"
LEVEL_NOTE = "Override glue (trampolines must override excluded pure virtual methods too) is not a publication; the instantiations of a template are judged by the name and signature of the template."

MATCHER = "does_match_regex_or_matcher"
NAMES = {"class_name", "function_name", "enum_name", "ns_name", "decl_name", "macro_name", "name", "return_type", "cpp_type", "superclass_name"}


def ends(*tails: str) -> Callable[[str], bool]:
    return lambda w: any(w == t or w.endswith("." + t) for t in tails)


FN = ends("function_name", "name()")
DECL = ends("decl_name", "name()")
TYPE = ends("cpp_type.str_code()")


class Case:
    def __init__(self, opt: str, kinds: tuple[str, ...], word: Optional[Callable[[str], bool]], include: bool = False, keyed: Optional[Callable[[str], bool]] = None,
                 nonempty: bool = False, label: str = "", has_return: bool = False, method: bool = False, members: bool = False, param: bool = False, api: bool = False,
                 signature: bool = False):
        self.opt, self.kinds, self.word, self.include, self.keyed = opt, kinds, word, include, keyed
        self.nonempty, self.has_return, self.method, self.members, self.param, self.api = nonempty, has_return, method, members, param, api
        self.signature = signature
        self.label = label or opt


CASES = [
    Case("fn_exclude_by_name__regex", ("AdaptedFunction",), FN),
    Case("fn_exclude_by_param_type__regex", ("AdaptedFunction",), ends("cpp_type.str_code()"), nonempty=True, label="fn_exclude_by_param_type__regex (a parameter)"),
    Case("fn_exclude_by_param_type__regex", ("AdaptedFunction",), ends("return_type.str_code()"), has_return=True, label="fn_exclude_by_param_type__regex (the returned type)"),
    Case("fn_exclude_by_name_and_signature", ("AdaptedFunction",), None, keyed=FN, signature=True),
    Case("fn_exclude_non_api", ("AdaptedFunction",), None, has_return=True, api=True),
    Case("class_exclude_by_name__regex", ("AdaptedClass",), ends("class_name", "name()")),
    Case("enum_exclude_by_name__regex", ("AdaptedEnum",), ends("enum_name", "name()")),
    Case("namespace_exclude__regex", ("AdaptedNamespace",), ends("ns_name", "name()")),
    Case("member_exclude_by_name__regex", ("AdaptedClassMember",), DECL, members=True),
    Case("member_exclude_by_type__regex", ("AdaptedClassMember",), TYPE, members=True),
    Case("member_exclude_by_name_and_class__regex", ("AdaptedClassMember",), DECL, keyed=ends("class_name"), members=True),
    Case("member_exclude_by_name_and_class__regex", ("AdaptedFunction",), FN, keyed=ends("class_name"), label="member_exclude_by_name_and_class__regex (methods)", method=True),
    Case("macro_define_include_by_name__regex", ("AdaptedDefine",), ends("macro_name", "name()"), include=True),
    Case("globals_vars_include_by_name__regex", ("AdaptedGlobalDecl",), DECL, include=True),
    Case("fn_params_exclude_names__regex", (), DECL, nonempty=True, param=True),
    Case("fn_params_exclude_types__regex", (), TYPE, nonempty=True, param=True),
]


class Excluded(Hook):
    def __init__(self, p: Project, case: Case):
        self.p, self.case = p, case
        self.kinds = {p.cls(k).full for k in case.kinds}
        self.opts = {x for x in (case.opt,)}
        self.synth = [f for f in p.funcs.values() if f.name == "code_to_cpp_unit" and f.cls is None]
        self.hits = 0
        self.matches: set[ast.AST] = set()
        self.found: dict[ast.AST, tuple[Func, str]] = {}
        self.texts: dict[ast.AST, Func] = {}
        self.stores: dict[ast.AST, tuple[Func, bool]] = {}
        self.api = api_methods(p)

    # ------------------------------------------------------------------ symbols
    def attr(self, s: Spec, f: Func, node: ast.Attribute, base: V) -> Any:
        b = sym(base)
        if node.attr == self.case.opt and (b is None or not b.startswith("opt:")):
            if self.case.opt == "fn_exclude_non_api":
                self.hits += 1
                return TRUE
            return S("opt:" + node.attr, True)
        if b is not None:
            return S(b + "." + node.attr)
        if base is TOP and node.attr in NAMES:
            return S(node.attr)
        if base is TOP and node.attr in self.p.__dict__.setdefault("_c06_getters", {"get_members", "get_members_with_access_type"}) and self.case.members:
            return S("MEMBERS")
        return NotImplemented

    def result(self, s: Spec, f: Func, node: Any, fv: V, args: dict) -> Any:
        b = sym(fv)
        if b is None:
            if isinstance(node, ast.Call):
                t, _ = self.p.callees(f.module, node)
                if any(x in self.synth for x in t):
                    return S("synth")
            return NotImplemented
        if b in ("opt:" + self.case.opt, "opt:" + self.case.opt + ".get", "opt:" + self.case.opt + ".pop"):
            k = sym(args.get(0, TOP))
            if self.case.keyed is not None and k is not None and self.case.keyed(k):
                if self.case.signature:
                    self.hits += 1
                return S("val:" + self.case.opt, True)
            return NotImplemented
        if b.startswith(("opt:", "val:")):
            return NotImplemented
        if b == "MEMBERS":
            return S("MEMBERS()")
        if b == "MEMBERS()" and isinstance(node, ast.Subscript):
            return S("MEMBERS()") if isinstance(node.slice, ast.Slice) else S("M")
        return S(b + ("[]" if isinstance(node, ast.Subscript) else "()"))

    def element(self, s: Spec, f: Func, it: ast.expr, v: V) -> Any:
        b = sym(v)
        if b == "MEMBERS()":
            return S("M")
        if b == "prefixes()":
            return S("prefix", True)
        return NotImplemented

    def nonempty(self, s: Spec, f: Func, it: ast.expr, v: V) -> bool:
        if sym(v) == "prefixes()":
            return True
        return self.case.nonempty

    def compare(self, s: Spec, f: Func, op: ast.cmpop, l: V, r: V) -> Any:
        if isinstance(op, (ast.In, ast.NotIn)):
            if sym(r) == "opt:" + self.case.opt and sym(l) and self.case.keyed and self.case.keyed(sym(l)):
                return const(isinstance(op, ast.In))
            if self.case.api and sym(l) == "prefix":
                return const(isinstance(op, ast.NotIn))
        if self.case.signature and isinstance(op, (ast.Eq, ast.NotEq)) and "val:" + self.case.opt in (sym(l), sym(r)):
            return const(isinstance(op, ast.Eq))
        if isinstance(op, (ast.Is, ast.IsNot)) and (sym(l) or "").startswith("val:"):
            return const(isinstance(op, ast.IsNot))
        return NotImplemented

    # ------------------------------------------------------------------ assumption
    def call(self, s: Spec, f: Func, node: ast.Call, targets: list[Func], ext: str, args: dict) -> Any:
        if any(t.name == MATCHER for t in targets):
            g = next(t for t in targets if t.name == MATCHER)
            rule = sym(args.get(0, args.get(g.params[0], TOP)))
            word = sym(args.get(1, args.get(g.params[1], TOP)))
            mine = "val:" + self.case.opt if self.case.keyed is not None else "opt:" + self.case.opt
            if rule == mine and self.case.word is not None:
                self.matches.add(node)
                if word is not None and self.case.word(word):
                    self.hits += 1
                    return FALSE if self.case.include else TRUE
            return BOOL
        if self.case.api and any(t.name == "functions_api_prefixes_list" for t in targets):
            return S("prefixes()", True)
        if isinstance(node.func, ast.Name) and node.func.id == "hasattr" and len(node.args) == 2 and isinstance(node.args[1], ast.Constant):
            if node.args[1].value == "return_type" and self.case.has_return:
                return TRUE
        if any(t.name == "has_return_type" for t in targets) and self.case.has_return:
            return TRUE
        if any(t.name == "has_default_value" for t in targets) and self.case.param:
            return TRUE
        return NotImplemented

    # ------------------------------------------------------------------ sinks
    def construct(self, s: Spec, f: Func, node: ast.Call, cls: str, args: dict) -> bool:
        if cls not in self.kinds:
            return True
        if any((sym(v) or "").startswith("synth") for v in args.values()):
            return False
        if not publishes(self.p, f, node, cls, self.api):
            return False
        if self.case.method and f.cls is None:
            return True
        if self.case.method and not in_class(self.p, f):
            return True
        self.found.setdefault(node, (f, cls))
        return True

    def emit(self, s: Spec, f: Func, node: ast.AST, v: V) -> None:
        if self.case.members and v is not TOP and any((sym(frozenset([x])) or "").split(".")[0] == "M" for x in v):
            self.texts.setdefault(node, f)

    def store(self, s: Spec, f: Func, t: ast.Attribute, v: V) -> None:
        if self.case.param and t.attr == "parameters":
            old = self.stores.get(t, (f, True))
            self.stores[t] = (f, old[1] and v == EMPTY)


def in_class(p: Project, f: Func) -> bool:
    c = f.cls.full if f.cls is not None else (f.parent.cls.full if f.parent is not None and f.parent.cls is not None else "")
    return bool(c) and any(k.endswith(".AdaptedClass") for k in [c])


def api_methods(p: Project) -> set[str]:
    """the methods of the base class of adapted elements which every kind of element must define"""
    out = set()
    c = p.cls("AdaptedElement")
    for k, g in c.methods.items():
        body = [x for x in g.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Raise):
            out.add(k)
    return out


def publishes(p: Project, f: Func, node: ast.Call, cls: str, api: set[str]) -> bool:
    """False when the object is only used, in this function, through methods which do not lead to the code it publishes"""
    par = p.parent_of.get(node)
    uses: list[ast.Attribute] = []
    if isinstance(par, ast.Attribute):
        uses = [par]
    elif isinstance(par, (ast.Assign, ast.AnnAssign)):
        ts = par.targets if isinstance(par, ast.Assign) else [par.target]
        if len(ts) != 1 or not isinstance(ts[0], ast.Name):
            return True
        for n in ast.walk(f.node):
            if isinstance(n, ast.Name) and n.id == ts[0].id and isinstance(n.ctx, ast.Load):
                q = p.parent_of.get(n)
                if not isinstance(q, ast.Attribute):
                    return True
                uses.append(q)
    else:
        return True
    seen: set[Func] = set()
    todo: list[Func] = []
    for u in uses:
        q = p.parent_of.get(u)
        if not (isinstance(q, ast.Call) and q.func is u):
            return True
        g = p.find_method(cls, u.attr)
        if g is None:
            return True
        todo.append(g)
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        if g.name in api:
            return True
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                h = p.find_method(cls, n.attr)
                if h is not None:
                    todo.append(h)
    return False


def follow(p: Project) -> set[str]:
    base = p.cls("AdaptedElement").full
    return {c for c in p.subtypes(base) if c != base}


def one(p: Project, case: Case, rs: list[Func], fol: set[str], tops: tuple, declared: set[str]) -> Report:
    rep = Report("C06", "")
    if case.opt not in declared:
        rep.errors.append(f"option {case.opt} no longer exists")
        return rep
    h = Excluded(p, case)
    s = Spec(p, h, tops, fol).run(rs)
    rep.count("options_studied")
    rep.count("functions_reached", len(s.reached_functions()))
    rep.count("matching_sites", len(h.matches))
    if not h.hits:
        rep.add("published", f"{case.label}: never consulted", "src/litgen/options.py", f"option {case.opt} is not consulted about the elements it excludes on any path")
        return rep
    for node, (f, cls) in sorted(h.found.items(), key=lambda x: x[1][0].qual):
        k = cls.split(".")[-1]
        rep.add("published", f"{case.label}: {k} in {f.qual}", f.loc(node), f"an element which matches {case.label} may be published by {k} ({s.chain(node)})")
    rep.sample(f"{case.label}: {len(s.reached_functions())} functions may run, {len(h.matches)} sites consult the option, no {'/'.join(case.kinds) or 'parameter'} is made")
    fl = Flow(p, ("emit_warning", "emit_message", "emit_warning_if_not_quiet"), within=set(s.reached))
    for node, f in sorted(h.texts.items(), key=lambda x: x[1].qual):
        t = p.parent_of.get(node) if isinstance(node, ast.FormattedValue) else node
        if not any(u.kind in ("emit", "extern", "method", "called", "attribute") for u in fl.uses(f.module, t)):
            continue
        rep.add("text", f"{case.label}: {f.qual}", f.loc(node), f"the code of a member which matches {case.label} may become part of the generated code ({s.chain(node)})")
    if case.param:
        readers = {p.enclosing_func(n) for n in h.matches}
        mods = {f.module.name for f in readers if f is not None}
        mine = {t: v for t, v in h.stores.items() if v[0].module.name in mods}
        rep.count("parameter_lists_stored", len(mine))
        for t, (f, ok) in sorted(mine.items(), key=lambda x: x[1][0].qual):
            if not ok:
                rep.add("parameter", f"{case.label}: {f.qual}", f.loc(t), f"a parameter which matches {case.label} may stay in the adapted function")
        if not mine:
            rep.add("parameter", f"{case.label}: no new parameter list", "src/litgen/options.py", f"no parameter list without the parameters which match {case.label} is stored")
        for m in mods:
            for f in p.funcs.values():
                if f.module.name == m and f.parent is None and any(v[0] is f for v in mine.values()):
                    for n in p.own_nodes(f):
                        if isinstance(n, ast.Return) and n in s.reached and (n.value is None or isinstance(n.value, ast.Constant) and n.value.value is None):
                            rep.add("parameter", f"{case.label}: {f.qual} gives up", f.loc(n), f"the adapter may give up although a parameter matches {case.label}")
    return rep


def run(p: Project, tier: str) -> Report:
    rep = Report("C06", "for each exclusion option, no object publishing a matching element can be made, and no text of a matching member or parameter is generated")
    rs = roots(p)
    rep.count("entry_points", len(rs))
    fol = follow(p)
    tops = (p.cls("LitgenOptions").full, p.cls("SrcmlcppOptions").full)
    declared = {t.target.id for t in p.cls("LitgenOptions").node.body if isinstance(t, ast.AnnAssign) and isinstance(t.target, ast.Name)}
    for o in sorted(declared):
        if ("exclude" in o or "_include_by" in o) and o not in {c.opt for c in CASES} | {"comments_exclude"}:
            rep.notes.append(f"option {o} is not among the studied ones") if hasattr(rep, "notes") else None
    for r in parallel([lambda c=c: one(p, c, rs, fol, tops, declared) for c in CASES]):
        rep.merge(r)
    rep.need("functions_reached", 2000)
    rep.need("matching_sites", 15)
    rep.assumptions = ["fn_params_exclude_* concern the parameters with a default value, as documented", "elements brought by custom adapters, callbacks and custom bindings are the user's"]
    return rep
