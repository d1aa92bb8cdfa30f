"""C04: each binding library gets only its own API.

The generator is evaluated abstractly once per binding library, from each public entry point, every expression of type
BindLibraryType being assumed equal to that library (vlib.spec): what remains is the code which may run, whatever the C++ input and
the other options. Then
(vocabulary)  no text literal which names a construct of the other library is evaluated there and reaches generated text; literals
              which are only compared, searched for, used as patterns, as the matched side of a replacement, raised or logged do not
              reach it (vlib.flow)
(support)     no function which produces text for one library produces a fixed empty value, or never returns, for the other one
(fresh)       an options object created while generating takes the library of the caller's options"""
from __future__ import annotations

import ast
import re
from typing import Optional

from vlib.flow import Flow
from vlib.project import Func, Project, dotted
from vlib.report import Report
from vlib.spec import BOT, TOP, Hook, K, Spec, join

TECHNIQUE = "abstract interpretation specialised on the selected binding library (interprocedural constant propagation with branch pruning) followed by forward value flow of library-specific literals"
LEVEL_NOTE = "The vocabulary of each library is a fixed list taken from their documentation; text given by the user (comments, custom bindings, replacements) is not judged."

PY = re.compile(r"\bpy::|\bpybind11\b|PYBIND11_|\bdef_readwrite|\bdef_readonly|\bdef_property|\breturn_value_policy\b|\bdef_buffer\b|\bbuffer_protocol\b|\bsmart_holder\b|"
                r"\bmodule_local\b|\barray_t\b|(?<!is_)\barithmetic\(\)|\bvectorize\(|\bpickle\(|\bdef_submodule_|\breinterpret_borrow<.*py::")
NB = re.compile(r"\bnb::|\bnanobind\b|\bNB_|\bdef_rw\b|\bdef_ro\b|\bdef_prop_|\bdef_rw_static\b|\bdef_ro_static\b|\brv_policy\b|\bis_arithmetic\b|\bis_flag\(|\bnb_")
OTHER = {"pybind11": (NB, "nb"), "nanobind": (PY, "py")}


def roots(p: Project) -> list[Func]:
    out: list[Func] = []
    names: set[str] = set()
    for mod in ("litgen", "litgen.litgen_generator", "litgen.code_to_adapted_unit"):
        m = p.modules.get(mod)
        if m is None:
            continue
        names |= set(p.imports(m).values()) if mod == "litgen" else set()
        for q, f in p.funcs.items():
            if f.module is m and f.parent is None and not f.name.startswith("_"):
                out.append(f)
    for n in names:
        f = p.funcs.get(n)
        if f is not None and f not in out and n.startswith("litgen"):
            out.append(f)
        c = p.classes.get(n)
        if c is not None and n.startswith("litgen"):
            for k, g in c.methods.items():
                if (not k.startswith("_") or k == "__init__") and g not in out:
                    out.append(g)
    for q, f in p.funcs.items():
        if f.module.name.endswith("validate_bindings_compilation.validate_bindings_compilation") and not f.name.startswith("_") and f.parent is None and f not in out:
            out.append(f)
    return out


class Lib(Hook):
    def __init__(self, p: Project, lib: str):
        self.p = p
        self.full = p.cls("BindLibraryType").full
        self.v = frozenset([("enum", self.full, lib)])

    def test(self, s, f, node, env):
        if isinstance(node, (ast.Attribute, ast.Name, ast.Call, ast.Subscript)) and self.p.classes_of(f.module, node) == {self.full}:
            if isinstance(node, ast.Attribute) and dotted(node.value).split(".")[-1] == "BindLibraryType":
                return NotImplemented
            return self.v
        return NotImplemented


def run(p: Project, tier: str) -> Report:
    rep = Report("C04", "no construct of the other binding library is reachable in generated text once the library is selected; each library is served wherever the other one is")
    rs = roots(p)
    rep.count("entry_points", len(rs))
    specs: dict[str, Spec] = {}
    mem = {t.id for n in p.cls("BindLibraryType").node.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
    if mem != set(OTHER):
        rep.errors.append(f"unknown set of binding libraries {sorted(mem)}")
    for lib in OTHER:
        specs[lib] = Spec(p, Lib(p, lib), (p.cls("LitgenOptions").full, p.cls("SrcmlcppOptions").full)).run(rs)
        rep.count(f"functions_reached_{lib}", len(specs[lib].reached_functions()))
        rep.count(f"contexts_{lib}", len(specs[lib].ctxs))
    for lib, (bad, short) in OTHER.items():
        s = specs[lib]
        fl = Flow(p, within=set(s.reached))
        fs = Flow(p, within=set(s.reached), concat=False)
        other = next(x for x in OTHER if x != lib)
        for m in p.modules.values():
            if not m.name.startswith(("litgen", "codemanip", "srcmlcpp")):
                continue
            for n in ast.walk(m.tree):
                if not (isinstance(n, ast.Constant) and isinstance(n.value, str)):
                    continue
                par = p.parent_of.get(n)
                if isinstance(par, ast.Expr):
                    continue
                mine, tok = hit(n.value, bad, short)
                if not mine:
                    continue
                rep.count(f"literals_of_{other}")
                if n not in s.reached:
                    continue
                if n.value == short:
                    uses = prefix(p, fs, m, n)
                else:
                    uses = [u for u in fl.uses(m, n) if u.kind in ("emit", "extern", "method", "called", "attribute")]
                if not uses:
                    rep.count("literals_only_compared_or_searched")
                    rep.sample(f"{m.rel}:{n.lineno} {n.value[:30]!r} evaluated with {lib}, never emitted")
                    continue
                f = p.enclosing_func(n)
                rep.add("vocabulary", f"{f.qual if f else m.name}: {tok} with {lib}", f"{m.rel}:{n.lineno}",
                        f"text of {other} ({tok!r}) may be generated while {lib} is selected (path: {s.chain(n)})")
    # support
    rets: dict[str, dict[Func, object]] = {}
    for lib, s in specs.items():
        d: dict[Func, object] = {}
        for c in s.ctxs.values():
            d[c.f] = join(d.get(c.f, BOT), c.ret)  # type: ignore
        rets[lib] = d
    a, b = rets["pybind11"], rets["nanobind"]
    for f in sorted(set(a) & set(b), key=lambda f: f.qual):
        if a[f] == b[f] or isinstance(f.node, ast.Lambda):
            continue
        ann = ast.unparse(f.node.returns) if getattr(f.node, "returns", None) is not None else ""  # type: ignore
        if not ("str" in ann or "list" in ann.lower()):
            continue
        rep.count("functions_differing_by_library")
        for lib, v, w in (("pybind11", a[f], b[f]), ("nanobind", b[f], a[f])):
            if v == BOT or (v is not TOP and all(empty(x) for x in v) and (w is TOP or any(not empty(x) for x in w))):  # type: ignore
                rep.add("support", f"{f.qual} with {lib}", f.loc(), f"{f.name} gives {'no result' if v == BOT else 'always an empty result'} with {lib}, and text with the other library")
    # fresh options
    full = p.cls("LitgenOptions").full
    seen = set()
    for s in specs.values():
        for f in s.reached_functions():
            if f in seen or f.module.name.startswith("litgen.options"):
                continue
            seen.add(f)
            for n in p.own_nodes(f):
                if isinstance(n, ast.Call) and p.constructed_class(f.module, n) == full and n in s.reached:
                    rep.count("options_created_while_generating")
                    par = p.parent_of.get(n)
                    names = {t.id for t in par.targets if isinstance(t, ast.Name)} if isinstance(par, ast.Assign) else set()
                    if isinstance(par, ast.AnnAssign) and isinstance(par.target, ast.Name):
                        names = {par.target.id}
                    ok = any(isinstance(x, ast.Attribute) and x.attr == "bind_library" and isinstance(x.ctx, ast.Store) and dotted(x.value) in names for x in p.own_nodes(f))
                    if not ok:
                        rep.add("fresh", f"{f.qual}: LitgenOptions()", f.loc(n), "options created while generating keep the default binding library instead of the selected one")
    rep.need("functions_reached_pybind11", 500)
    rep.need("functions_reached_nanobind", 500)
    rep.need("literals_of_pybind11", 20)
    rep.need("literals_of_nanobind", 20)
    rep.assumptions = ["adapters, callbacks and texts given by the user are not judged"]
    return rep


def prefix(p: Project, fl: Flow, m, n: ast.AST) -> list:
    """a bare namespace name: where is it the slot of a template, or followed by ::?"""
    out = []
    for u in fl.uses(m, n):
        if u.kind == "emit" and u.detail == "slot of a template":
            out.append(u)
        elif u.kind == "concat":
            par = u.node
            if isinstance(par, ast.FormattedValue):
                js = p.parent_of.get(par)
                if isinstance(js, ast.JoinedStr):
                    i = js.values.index(par)
                    nx = js.values[i + 1] if i + 1 < len(js.values) else None
                    if isinstance(nx, ast.Constant) and str(nx.value).startswith("::"):
                        out.append(u)
            elif isinstance(par, ast.BinOp) and u.detail is par.left and isinstance(par.right, ast.Constant) and str(par.right.value).startswith("::"):
                out.append(u)
    for x, mode in fl.visited:
        d = p.parent_of.get(x)
        if isinstance(d, ast.Dict) and any(x is v for v in d.values):
            out.append(x)
    return out


def empty(x: object) -> bool:
    return not x.v if isinstance(x, K) else x == ("empty",)


def hit(text: str, bad: re.Pattern, short: str) -> tuple[bool, str]:
    if text == short:
        return True, short
    if " -> " in text:
        # a table of replacements: what it produces is what follows the arrow
        text = "\n".join(l.split(" -> ", 1)[1] for l in text.split("\n") if " -> " in l) if all(" -> " in l for l in text.split("\n") if l.strip()) else text
    m = bad.search(text)
    return (True, m.group(0)) if m else (False, "")
