"""Results which several checks share within one run"""
from __future__ import annotations

from .effects import Effects
from .project import Cls, Func, Project
from .restore import Restore, context_manager_pair


def effects(p: Project) -> Effects:
    e = getattr(p, "_effects", None)
    if e is None:
        e = Effects(p)
        p._effects = e  # type: ignore
    return e


def restore(p: Project, f: Func) -> Restore:
    c = getattr(p, "_restore", None)
    if c is None:
        c = p._restore = {}  # type: ignore
    if f not in c:
        c[f] = Restore(p, f)
    return c[f]


def is_restored(p: Project, m) -> bool:
    """the modification m (effects.Mut) is temporary: undone on every way out of the function holding it"""
    f = p.funcs.get(m.func)
    if f is None:
        return False
    line = int(m.loc.rsplit(":", 1)[1])
    if restore(p, f).is_clean(line):
        return True
    return context_manager_pair(p, f, m.attr)


def cpp_classes(p: Project) -> set[str]:
    """classes whose instances make the parsed C++ tree (the srcml wrapper included)"""
    r = getattr(p, "_cpp_classes", None)
    if r is None:
        wr = p.cls("SrcmlWrapper")
        r = set(p.subtypes(wr.full))
        for c in p.classes.values():
            if c.module.name.startswith("srcmlcpp.cpp_types."):
                r.add(c.full)
        p._cpp_classes = r  # type: ignore
    return r


def options_owned_classes(p: Project, roots: set[str]) -> set[str]:
    """project classes which an options object may hold (annotated fields, values stored in its attributes); the
    classes of the parsed tree are left out"""
    import ast
    import re
    cpp = cpp_classes(p)
    out: set[str] = set()
    todo = list(roots)

    def ann_classes(ann: ast.AST) -> list[str]:
        r: list[str] = []
        for x in ast.walk(ann):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                for w in re.findall(r"\w+", x.value):
                    r += [d.full for d in p.cls_by_name.get(w, [])]
            name = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
            if name:
                r += [d.full for d in p.cls_by_name.get(name, [])]
        return r

    users = set(roots)
    changed = True
    fields: dict[str, set[str]] = {}
    for c, cl in p.classes.items():
        fs: set[str] = set()
        for n in ast.walk(cl.node):
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) or isinstance(n, ast.AnnAssign) and p.parent_of.get(n) is cl.node:
                fs |= set(ann_classes(n.annotation))
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) for t in n.targets):
                fs |= p.classes_of(cl.module, n.value)
        fields[c] = fs
    while changed:
        changed = False
        for c in p.classes:
            if c not in users and c not in cpp and any(fields.get(k, set()) & users for k in p.mro(c)):
                users.add(c)
                changed = True

    def holds_options(c: str) -> bool:
        return c in users

    while todo:
        c = todo.pop()
        if c in out or c not in p.classes or c in cpp:
            continue
        if c not in roots and holds_options(c):
            continue  # it refers to the options: it is not one of their parts
        out.add(c)
        for k in p.mro(c):
            cl = p.classes.get(k)
            if cl is None:
                continue
            for n in ast.walk(cl.node):
                if isinstance(n, ast.AnnAssign):
                    par = p.enclosing_func(n)
                    if par is None or isinstance(n.target, ast.Attribute):
                        todo += ann_classes(n.annotation)
                if isinstance(n, ast.Assign) and (p.enclosing_func(n) is None or any(isinstance(t, ast.Attribute) for t in n.targets)):
                    d = p.constructed_class(cl.module, n.value) if isinstance(n.value, ast.Call) else None
                    if d:
                        todo.append(d)
    return out
