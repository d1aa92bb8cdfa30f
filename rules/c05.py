"""C05: only public (or opted-in protected) members are published.

The code which publishes a class (the adapted class, from its construction to its binding and stub text) is evaluated abstractly
under the assumption that every section of the class is private, then protected without the user's consent (vlib.spec). Then
(published)  no object publishing a member (method, field, enum, nested class) is ever made
(text)       no text of a field becomes part of generated code (constructor with named parameters)
(bases)      a base class declared private is not used by the code which writes bindings or stubs
(section)    parsing a section gives it the access named by its tag, and the name of an access gives that access"""
from __future__ import annotations

import ast
from typing import Any

from rules.c06 import Case, Excluded, MATCHER, follow, publishes
from vlib.flow import Flow
from vlib.par import parallel
from vlib.project import Func, Project
from vlib.report import Report
from vlib.spec import BOOL, BOT, FALSE, TOP, TRUE, Hook, S, Spec, V, const, sym

TECHNIQUE = "abstract interpretation specialised on the access of the class's sections (interprocedural, path-sensitive, with instantiation analysis): constructions publishing a member, and uses of private bases, must be unreachable"
LEVEL_NOTE = "Override glue (trampolines override private virtual methods, as C++ allows) is not a publication; the inheritance of a class without access specifier is what the parser reports."

EXPOSE = "class_expose_protected_methods__regex"


class Access(Excluded):
    def __init__(self, p: Project, access: str, expose: str):
        super().__init__(p, Case("-", tuple(k for k in ("AdaptedFunction", "AdaptedClass", "AdaptedEnum", "AdaptedClassMember", "AdaptedGlobalDecl", "AdaptedNamespace", "AdaptedDefine")
                                            if any(c.endswith("." + k) for c in p.classes)), None, members=True))
        self.enum = p.cls("CppAccessType").full
        self.ppp = p.cls("CppPublicProtectedPrivate").full
        self.access = frozenset([("enum", self.enum, access)])
        self.expose = expose
        self.sections = 0
        self.bases: dict[ast.AST, Func] = {}
        self.base_lists = 0

    def attr(self, s: Spec, f: Func, node: ast.Attribute, base: V) -> Any:
        if node.attr == "access_type" and self.ppp in self.p.classes_of(f.module, node.value):
            self.sections += 1
            return self.access
        if node.attr == EXPOSE:
            return S("opt:" + EXPOSE, True)
        b = sym(base)
        if b is not None:
            return S(b + "." + node.attr)
        if base is TOP and node.attr in ("get_members", "get_members_with_access_type"):
            return S("MEMBERS")
        if base is TOP and node.attr == "base_classes":
            return S("BASES")
        if base is TOP and node.attr == "with_specialized_template":
            return S("synth")
        return NotImplemented

    def result(self, s: Spec, f: Func, node: Any, fv: V, args: dict) -> Any:
        b = sym(fv)
        if b is not None and b.startswith("BASE") and not b.startswith("BASES"):
            self.base_used(f, node)
        if b == "BASES":
            self.base_lists += 1
            return S("BASES()", True)
        return super().result(s, f, node, fv, args)

    def element(self, s: Spec, f: Func, it: ast.expr, v: V) -> Any:
        if sym(v) == "BASES()":
            return frozenset([("tuple", (self.access, S("BASE")))])
        return super().element(s, f, it, v)

    def base_used(self, f: Func, node: ast.AST) -> None:
        if f.module.name.startswith("litgen"):
            self.bases.setdefault(node, f)

    def call(self, s: Spec, f: Func, node: ast.Call, targets: list[Func], ext: str, args: dict) -> Any:
        if self.access == frozenset([("enum", self.enum, "private")]) and any((sym(v) or "").split(".")[0] == "BASE" for v in args.values()):
            self.base_used(f, node)
        if any(t.name == MATCHER for t in targets):
            g = next(t for t in targets if t.name == MATCHER)
            if sym(args.get(0, args.get(g.params[0], TOP))) == "opt:" + EXPOSE:
                return TRUE if self.expose == "all" else FALSE
            return BOOL
        return NotImplemented


class Tag(Hook):
    """the element being parsed has this tag"""

    def __init__(self, p: Project, tag: str, cls: str):
        self.p, self.tag, self.cls = p, tag, cls
        self.got: dict[ast.AST, tuple[Func, V]] = {}

    def call(self, s: Spec, f: Func, node: ast.Call, targets: list[Func], ext: str, args: dict) -> Any:
        if any(t.name == "tag" for t in targets) or isinstance(node.func, ast.Attribute) and node.func.attr == "tag":
            return const(self.tag)
        if self.p.constructed_class(f.module, node) == self.cls:
            t = targets[0] if targets else None
            i = [x for x in t.params if x != "self"].index("access_type") if t is not None and "access_type" in t.params else 1
            self.got[node] = (f, args.get("access_type", args.get(i, TOP)))
        return NotImplemented


def one(p: Project, access: str, expose: str) -> Report:
    rep = Report("C05", "")
    h = Access(p, access, expose)
    tops = (p.cls("LitgenOptions").full, p.cls("SrcmlcppOptions").full)
    ac = p.cls("AdaptedClass")
    s = Spec(p, h, tops, follow(p))
    s.open = True
    s.made[ac.full] = (None, ac.node)  # type: ignore
    rs = [g for k, g in ac.methods.items() if k == "__init__" or k in h.api or not k.startswith("_")]
    s.run(rs)
    lab = f"{access} section" + (", protected methods exposed" if expose == "all" else "")
    rep.count("assumptions_studied")
    rep.count("functions_reached", len(s.reached_functions()))
    rep.count("section_accesses_read", h.sections)
    rep.count("base_lists_read", h.base_lists)
    for node, (f, cls) in sorted(h.found.items(), key=lambda x: x[1][0].qual):
        rep.add("published", f"{lab}: {cls.split('.')[-1]} in {f.qual}", f.loc(node), f"a member of a {lab} may be published by {cls.split('.')[-1]} ({s.chain(node)})")
    fl = Flow(p, ("emit_warning",), within=set(s.reached))
    for node, f in sorted(h.texts.items(), key=lambda x: x[1].qual):
        t = p.parent_of.get(node) if isinstance(node, ast.FormattedValue) else node
        if any(u.kind in ("emit", "extern", "method", "called", "attribute") for u in fl.uses(f.module, t)):
            rep.add("text", f"{lab}: {f.qual}", f.loc(node), f"the code of a field of a {lab} may become part of the generated code ({s.chain(node)})")
    if access == "private":
        for node, f in sorted(h.bases.items(), key=lambda x: x[1].qual):
            rep.add("bases", f"{f.qual}: private base", f.loc(node), f"a base class inherited privately may be published ({s.chain(node)})")
    rep.sample(f"{lab}: {len(s.reached_functions())} functions may run to publish the class, none makes an object for a member")
    return rep


def run(p: Project, tier: str) -> Report:
    rep = Report("C05", "with private (or protected and not exposed) sections, no object or text publishing a member can be made; private bases are not used by the generators")
    for r in parallel([lambda a=a, e=e: one(p, a, e) for a, e in (("private", "none"), ("private", "all"), ("protected", "none"))]):
        rep.merge(r)
    # the access of a section
    en = p.cls("CppAccessType")
    members = [t.id for n in en.node.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)]
    for name in ("public", "protected", "private"):
        if name not in members:
            rep.errors.append(f"CppAccessType.{name} no longer exists")
    ppp = p.cls("CppPublicProtectedPrivate").full
    sites = [(f, n) for f in p.funcs.values() if "internal" in f.module.name and f.module.name.startswith("srcmlcpp") for n in p.own_nodes(f)
             if isinstance(n, ast.Call) and p.constructed_class(f.module, n) == ppp]
    for f in {f.qual: f for f, _ in sites}.values():
        for tag in ("public", "protected", "private"):
            h = Tag(p, tag, ppp)
            Spec(p, h).run([f])
            for node, (g, v) in h.got.items():
                rep.count("sections_parsed")
                if v != frozenset([("enum", en.full, tag)]):
                    rep.add("section", f"{g.qual}: {tag}", g.loc(node), f"a {tag} section may be given another access ({'unknown' if v is TOP else sorted(str(x[-1]) for x in v)})")
    rep.need("assumptions_studied", 3)
    rep.need("functions_reached", 600)
    rep.need("section_accesses_read", 3)
    rep.need("base_lists_read", 2)
    rep.need("sections_parsed", 3)
    rep.assumptions = ["callbacks and custom bindings given by the user are not judged"]
    return rep
