"""C09: adapting and rendering never alter the parsed C++ tree.

Interprocedural effect analysis over access paths. Three boundaries are decided:
  (queries)  no public query / rendering function of the parsing library modifies the elements it is given;
  (adapt)    no constructor of the binding generator modifies the parsed elements it receives;
  (render)   no method of the binding generator modifies a parsed element held by its object, unless that object owns
             a private copy of it, or the change is undone on every way out.
"""
from __future__ import annotations

import ast

TECHNIQUE = "interprocedural effect (mod/alias) analysis over access paths with ownership (deep-copied / constructed) of attributes, on the mypy-typed AST"
LEVEL_NOTE = ("Over-approximates modifications reachable through resolved calls and aliases (paths of length 4); remembered results (private cache attributes) and the parent links "
              "re-pointed by the property setters are not counted as content of the tree; imprecise (starred) paths are believed only when the class is known.")

from vlib.report import Report
from vlib.project import Project, AnalysisError, Func
from vlib import shared
from vlib.effects import STAR, K, link_attrs

# links of an element to what is around it, or to what is never modified
SHARED_BY_DESIGN = {"parent", "options", "srcml_xml", "start", "end"}
BUILDERS = ("add", "fill", "set", "create", "parse", "visit", "store", "merge", "append", "insert", "remove", "register")
BUILDER_MODULES = ("srcmlcpp.internal", "srcmlcpp.srcmlcpp_main", "srcmlcpp.scrml_warning_settings")


def memo_attrs(p: Project, cpp: set[str]) -> set[str]:
    """private attributes of the tree's classes which hold a remembered result: outside of constructors and resets,
    they are written only by functions which first test whether they are filled (or by helpers of such functions)"""
    writers: dict[str, list[Func]] = {}
    for f in p.all_funcs():
        for n in p.own_nodes(f):
            if isinstance(n, (ast.Attribute,)) and isinstance(n.ctx, ast.Store) and n.attr.startswith("_"):
                if p.classes_of(f.module, n.value) & cpp:
                    writers.setdefault(n.attr, []).append(f)

    def tests(f: Func, attr: str) -> bool:
        for n in p.own_nodes(f):
            t = None
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                t = n.test
            elif isinstance(n, ast.Compare):
                t = n
            if t is None:
                continue
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and x.attr == attr:
                    return True
                if isinstance(x, ast.Constant) and x.value == attr:
                    return True
        return False

    out: set[str] = set()
    for a, fs in writers.items():
        ok = True
        for f in fs:
            if f.name in ("__init__", "__deepcopy__", "__copy__") or (f.name + " ").startswith(("_clear", "clear", "_init", "_reset")):
                continue
            if tests(f, a):
                continue
            cs = [c for c in p.callers_of(f)]
            if cs and all(c is not None and tests(c, a) for c in cs):
                continue
            ok = False
        if ok and "cache" in a or ok and any(tests(f, a) for f in fs):
            out.add(a)
    for c in p.classes.values():
        for n in ast.walk(c.node):
            if isinstance(n, ast.AnnAssign) and "Cache" in ast.unparse(n.annotation):
                t = n.target
                out.add(t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else "")
    out.discard("")
    return out


def run(p: Project, tier: str) -> Report:
    e = shared.effects(p)
    rep = Report("C09", "no query or rendering function of the parser, and no constructor or method of the binding generator, modifies (directly, through an alias or a callee) "
                        "a parsed element which it does not own, except temporarily with restoration on every way out")
    cpp = shared.cpp_classes(p)
    if len(cpp) < 30:
        raise AnalysisError("the classes of the parsed tree were not found")
    memo = memo_attrs(p, cpp)
    rep.extra["remembered_results"] = sorted(memo)
    rep.count("functions_analysed", len(e.top))
    rep.count("tree_classes", len(cpp))
    rep.need("functions_analysed", 700)

    # fields whose value is (a container of) an element of the tree
    def ann_is_cpp(a: ast.AST) -> bool:
        for x in ast.walk(a):
            nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
            names = [nm] if nm else []
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                import re
                names = re.findall(r"\w+", x.value)
            for w in names:
                if any(c.full in cpp for c in p.cls_by_name.get(w, [])):
                    return True
        return False

    tree_fields: set[str] = set()
    for c in p.classes.values():
        if c.full in cpp:
            continue
        for n in ast.walk(c.node):
            if isinstance(n, ast.AnnAssign) and ann_is_cpp(n.annotation):
                t = n.target
                tree_fields.add(t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else "")
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and p.classes_of(c.module, n.value) & cpp:
                        tree_fields.add(t.attr)
    tree_fields.discard("")
    field_classes: dict[str, set[str]] = {}
    for c in p.classes.values():
        for n in ast.walk(c.node):
            t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
            nm = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else ""
            if not nm:
                continue
            cs: set[str] = set()
            if isinstance(n, ast.AnnAssign):
                cs = _ann_classes(p, n.annotation)
            elif isinstance(t, ast.Attribute):
                cs = p.classes_of(c.module, n.value) & set(p.classes)
            if cs:
                field_classes.setdefault(nm, set()).update(cs)
    elements = set(p.subtypes(p.cls("SrcmlWrapper").full))
    memo_classes = {c for a in memo for c in field_classes.get(a, set())} - elements
    element_fields: set[str] = set()
    for c in p.classes.values():
        if c.full not in cpp:
            continue
        for n in ast.walk(c.node):
            t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
            if isinstance(t, ast.Attribute) or isinstance(t, ast.Name) and p.parent_of.get(n) is c.node:
                element_fields.add(t.attr if isinstance(t, ast.Attribute) else t.id)
    rep.extra["attributes_holding_parsed_elements"] = sorted(tree_fields)

    def param_is_cpp(f: Func, i: int) -> bool:
        if i >= len(f.params):
            return False
        if i == 0 and f.cls is not None and not f.is_static:
            return f.cls.full in cpp
        a = f.node.args  # type: ignore
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == f.params[i] and x.annotation is not None:
                return ann_is_cpp(x.annotation)
        return False

    def setter_parent(m) -> bool:
        """the parent link of an element which is being stored in another one"""
        if m.attr != "parent":
            return False
        f = p.funcs.get(m.func)
        return f is not None and (m.func.endswith("@setter") or f.name.lstrip("_").startswith(("fill", "visit", "add")) or f.parent is not None)

    def content(m) -> bool:
        """the modification concerns the content of a parsed element"""
        if m.attr in memo or any(x in memo for x in m.path):
            return False
        if setter_parent(m):
            return False
        g = p.funcs.get(m.func)
        if g is not None and g.cls is not None and g.cls.full in memo_classes:
            return False
        cls = [c for c in m.cls.split("|") if c]
        if m.attr == "[]" and not any(c in p.classes for c in cls):
            # a list, a dict... held by an element of the tree
            last = next((x for x in reversed(m.path) if x not in ("[]", STAR)), None)
            return last in element_fields
        if cls and not any(c in cpp for c in cls):
            return False
        return feasible(m)

    def is_builder(f: Func) -> bool:
        g = f
        while g.parent is not None:
            g = g.parent
        n = g.name.lstrip("_")
        if g.name.startswith("_") or g.qual.endswith("@setter"):
            return True  # reached through its public callers
        return n.split("_")[0] in BUILDERS or g.module.name.startswith(BUILDER_MODULES)

    def returns_value(f: Func) -> bool:
        r = getattr(f.node, "returns", None)
        if r is not None:
            return not (isinstance(r, ast.Constant) and r.value is None)
        return any(isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None) for n in p.own_nodes(f))

    owned_cache: dict = {}

    def owned_attr(cls: str, attr: str) -> bool:
        """every value stored in cls.attr is private to the object: a deep copy, a new element, a new parse"""
        k = (cls, attr)
        if k not in owned_cache:
            owned_cache[k] = True
            owned_cache[k] = _owned_attr(cls, attr)
        return owned_cache[k]

    def _owned_attr(cls: str, attr: str) -> bool:
        found = False
        for c in p.mro(cls):
            cl = p.classes.get(c)
            if cl is None:
                continue
            for mname, mf in cl.methods.items():
                s = e.sum.get(mf.qual)
                if s is None or mf.is_static or mf.is_classmethod:
                    continue
                if mname == "__init__" and c != cls and p.find_method(cls, "__init__") is not mf:
                    continue  # its stores are part of the summary of the constructor which calls it
                for (root, path), fld, org in s.stores:
                    if root == ("p", 0) and not path and fld == attr:
                        found = True
                        if org[0][0] not in ("f", "c"):
                            return False
        return found

    n_obl = 0
    seen: set = set()

    def boundary_root(g: Func, m) -> bool:
        """the modification, seen from g, is judged at g"""
        if m.root[0] != "p" or m.root[1] >= len(g.params) or not g.module.name.startswith("litgen"):
            return False
        is_self = m.root[1] == 0 and g.cls is not None and not g.is_static
        if not is_self and param_is_cpp(g, m.root[1]):
            return g.name == "__init__" and g.cls is not None and g.cls.full not in cpp
        return is_self and any(x in tree_fields for x in m.path)

    cred: dict = {}

    def credible(q: str, m) -> bool:
        """the path is exact, or it is the truncation of an exact one (imprecise paths are not believed)"""
        if not (m.path and m.path[-1] == STAR):
            return True
        if len(m.path) <= K:
            return False
        k = (q, m.key())
        if k not in cred:
            cred[k] = False
            if not m.chain:
                cred[k] = bool([c for c in m.cls.split("|") if c])
            else:
                g = m.chain[0][1]
                s2 = e.sum.get(g)
                cred[k] = s2 is not None and any(credible(g, x) for x in s2.muts.values() if (x.func, x.attr, x.snippet) == (m.func, m.attr, m.snippet))
        return cred[k]

    def feasible(m) -> bool:
        """the class of the modified object agrees with the declared class of the attribute it was reached through"""
        cls = {c for c in m.cls.split("|") if c in p.classes}
        last = next((x for x in reversed(m.path) if x != "[]"), None)
        if not cls or last is None or last == STAR or last not in field_classes:
            return True
        fc = field_classes[last]
        return any(a in p.mro(b) or b in p.mro(a) for a in cls for b in fc)

    def judged_by_callee(m) -> bool:
        for _, callee in m.chain:
            s2 = e.sum.get(callee)
            g = p.funcs.get(callee)
            if s2 is None or g is None:
                continue
            same = [x for x in s2.muts.values() if (x.func, x.attr, x.snippet) == (m.func, m.attr, m.snippet)]
            if same and all(boundary_root(g, x) for x in same):
                return True
        return False

    def report(rule: str, f: Func, m, what: str) -> None:
        k = (rule, m.func, m.attr, m.snippet)
        if k in seen:
            return
        seen.add(k)
        if shared.is_restored(p, m):
            rep.count("temporary_modifications_proved_restored")
            rep.sample(f"{m.loc} {m.snippet}: temporary, restored on every way out")
            return
        via = " <- ".join(f"{loc} {callee.split('.')[-1]}" for loc, callee in m.chain[:4])
        rep.add(rule, f"{m.func}: {m.snippet}", m.loc, f"modifies {m.attr} of {what}" + (f"; reached from {f.qual} via {via}" if via else ""))

    for q, s in sorted(e.sum.items()):
        f = p.funcs[q]
        if isinstance(f.node, ast.Lambda):
            continue
        mod = f.module.name
        in_parser = mod.startswith("srcmlcpp")
        in_gen = mod.startswith("litgen")
        if in_parser:
            if f.name.startswith("__") and f.name not in ("__str__", "__repr__", "__eq__", "__hash__", "__lt__"):
                continue
            if is_builder(f) or not returns_value(f):
                continue
            if not any(param_is_cpp(f, i) for i in range(len(f.params))):
                continue
            rep.count("query_functions")
            for m in s.muts.values():
                if m.root[0] == "p" and param_is_cpp(f, m.root[1]) and content(m) and credible(q, m):
                    prm = ".".join([f.params[m.root[1]]] + [str(x) for x in m.path])
                    report("query-modifies-tree", f, m, f"{prm}, which the query {f.name}() is given")
        elif in_gen:
            ctor = f.name == "__init__" and f.cls is not None and f.cls.full not in cpp
            if ctor:
                rep.count("constructors")
            for m in s.muts.values():
                if m.root[0] != "p" or not content(m) or not credible(q, m):
                    continue
                i = m.root[1]
                if i >= len(f.params) or judged_by_callee(m):
                    continue
                is_self = i == 0 and f.cls is not None and not f.is_static
                if not is_self and param_is_cpp(f, i):
                    # plain helpers: their callers are charged; constructors and uncalled functions are the boundary
                    cl = [c for c in p.callers_of(f) if c is not None and c is not f]
                    if ctor or not cl:
                        if _locally_fresh(p, f, m):
                            continue
                        report("adapting-modifies-tree", f, m, f"the parsed element `{f.params[i]}` given to {f.qual.split('.')[-2]}")
                    continue
                # through an attribute of self, or of an adapted object
                path = [x for x in m.path]
                idx = next((k for k, x in enumerate(path) if x in tree_fields), None)
                if idx is None:
                    continue
                owner_cls: set[str] = set()
                if is_self and idx == 0:
                    owner_cls = {f.cls.full}  # type: ignore
                elif idx == 0:
                    owner_cls = {c for c in _param_classes(p, f, f.params[i])}
                else:
                    fld = next((x for x in reversed(path[:idx]) if x != "[]"), None)
                    owner_cls = field_classes.get(fld, set()) if fld else _param_classes(p, f, f.params[i])
                n_obl += 1
                subs: set[str] = set()
                for c in owner_cls:
                    subs.add(c)
                    if is_self and m.func == q:
                        # a method inherited as it is by classes which hold the element otherwise
                        subs |= {d for d in p.subtypes(c) if p.find_method(d, f.name) is f}
                # the parent of an owned copy is not owned
                leaves = idx + 1 < len(path) and path[idx + 1] == "parent"
                if subs and not leaves and all(owned_attr(c, path[idx]) for c in subs):
                    rep.count("modifications_of_owned_copies")
                    continue
                if _locally_fresh(p, f, m):
                    continue
                report("rendering-modifies-tree", f, m, f"the parsed element held in `{'.'.join([f.params[i]] + [str(x) for x in path])}`, which is shared with the parsed tree")
    # the copies on which the adapters work are deep: only the links to the outside are shared with the original
    for c in p.classes.values():
        for mname in ("__deepcopy__", "__copy__", "__reduce_ex__", "__getstate__"):
            mf = c.methods.get(mname)
            if mf is None or c.full not in cpp:
                continue
            rep.count("copy_protocols")
            exprs = [mf.node]
            for n in ast.walk(mf.node):
                if isinstance(n, ast.Name):
                    for st in mf.module.tree.body:
                        tg = st.targets[0] if isinstance(st, ast.Assign) else st.target if isinstance(st, ast.AnnAssign) else None
                        if isinstance(tg, ast.Name) and tg.id == n.id and st.value is not None:  # type: ignore
                            exprs.append(st.value)  # type: ignore
            named = {x.value for ex in exprs for x in ast.walk(ex) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
            for fld in sorted((named & (element_fields | set(field_classes))) - SHARED_BY_DESIGN - set(link_attrs(p))):
                rep.add("shallow-copy", f"{mf.qual}: {fld}", mf.loc(), f"the copy protocol of {c.name} treats `{fld}` apart: it would be shared between an element and its copy, which the adapters modify")
            if mname == "__deepcopy__" and c.full not in memo_classes and not any(isinstance(n, ast.Call) and p.full_name(mf.module, n.func) == "copy.deepcopy" for n in ast.walk(mf.node)):
                rep.add("shallow-copy", mf.qual, mf.loc(), f"the deep copy of {c.name} does not copy its attributes deeply")
    rep.count("modifications_through_adapted_elements", n_obl)
    rep.need("query_functions", 100)
    rep.need("constructors", 15)
    rep.assumptions = ["mypy's types are right (the tree type-checks)", "user callbacks do not modify the parsed elements they are given"]
    return rep


def _ann_classes(p: Project, ann: ast.AST) -> set[str]:
    import re
    out: set[str] = set()
    for x in ast.walk(ann):
        nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
        names = [nm] if nm else []
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            names = re.findall(r"\w+", x.value)
        for w in names:
            out |= {c.full for c in p.cls_by_name.get(w, [])}
    return out


def _param_classes(p: Project, f: Func, prm: str) -> set[str]:
    from rules.c01 import _param_classes as pc
    return pc(p, f, prm)


def _locally_fresh(p: Project, f: Func, m) -> bool:
    """in the function holding the modification, the receiver attribute was assigned a copy earlier in the same block"""
    g = p.funcs.get(m.func)
    if g is None:
        return False
    line = int(m.loc.rsplit(":", 1)[1])
    for st in ast.walk(g.node):
        if not isinstance(st, ast.stmt) or st.lineno != line or not isinstance(st, (ast.Assign, ast.AugAssign)):
            continue
        tgt = st.targets[0] if isinstance(st, ast.Assign) else st.target
        if not isinstance(tgt, ast.Attribute):
            continue
        recv = ast.unparse(tgt.value)
        par = p.parent_of.get(st)
        for fld in ("body", "orelse", "finalbody"):
            blk = getattr(par, fld, None)
            if isinstance(blk, list) and st in blk:
                for prev in blk[: blk.index(st)]:
                    if isinstance(prev, ast.Assign) and any(ast.unparse(t) == recv for t in prev.targets):
                        if _fresh_value(p, g, prev.value):
                            return True
    return False


def _fresh_value(p: Project, g: Func, v: ast.expr, depth: int = 0) -> bool:
    """the value is a copy: of copy.copy / deepcopy, of a project function returning only new objects, or a variable which only holds such values"""
    if isinstance(v, ast.Call):
        if p.full_name(g.module, v.func) in ("copy.copy", "copy.deepcopy"):
            return True
        fs, _ = p.callees(g.module, v)
        e = shared.effects(p)
        return bool(fs) and all(e.sum[h.qual].ret and all(o[0][0] == "f" for o in e.sum[h.qual].ret) for h in fs if h.qual in e.sum)
    if isinstance(v, ast.Name) and depth < 4 and v.id not in g.params:
        vals = [n.value for n in p.own_nodes(g) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets)]
        return bool(vals) and all(_fresh_value(p, g, x, depth + 1) for x in vals)
    return False
