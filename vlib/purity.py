"""Which functions depend on nothing but (immutable) arguments?"""
from __future__ import annotations

import ast
from typing import Optional

from .project import Func, Module, Project, dotted
from . import shared

PURE_EXTERNAL = ("re.", "math.", "builtins.", "itertools.", "operator.", "string.", "os.path.join", "os.path.basename", "os.path.dirname", "os.path.splitext", "typing.cast",
                 "textwrap.", "html.", "ast.", "keyword.")
IMPURE_BUILTINS = {"open", "input", "print", "globals", "locals", "vars", "id", "hash", "exec", "eval", "getattr", "setattr", "delattr", "__import__", "breakpoint", "next", "iter"}
IMM_NAMES = {"str", "int", "bool", "float", "bytes", "tuple", "frozenset", "None", "Optional", "Union", "Tuple", "type", "complex"}


class Purity:
    def __init__(self, p: Project):
        self.p = p
        self.e = shared.effects(p)
        self._memo: dict[str, Optional[str]] = {}
        w = set()
        for s in self.e.sum.values():
            for m in s.muts.values():
                if m.root[0] in ("g", "c"):
                    w.add(m.root[1])
        self.written = w

    def constant_expr(self, mod: Module, n: ast.AST) -> bool:
        if isinstance(n, ast.Constant):
            return True
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            return all(self.constant_expr(mod, x) for x in n.elts)
        if isinstance(n, ast.Dict):
            return all(k is not None and self.constant_expr(mod, k) for k in n.keys) and all(self.constant_expr(mod, x) for x in n.values)
        if isinstance(n, (ast.BinOp,)):
            return self.constant_expr(mod, n.left) and self.constant_expr(mod, n.right)
        if isinstance(n, ast.UnaryOp):
            return self.constant_expr(mod, n.operand)
        if isinstance(n, ast.Call):
            d = self.p.full_name(mod, n.func)
            return d.startswith("re.") and all(self.constant_expr(mod, x) for x in n.args) and all(self.constant_expr(mod, k.value) for k in n.keywords)
        if isinstance(n, ast.Attribute):
            return self.p.full_name(mod, n).startswith("re.")
        return False

    def _imm_ann(self, a: Optional[ast.AST]) -> bool:
        if a is None:
            return False
        if isinstance(a, ast.Constant):
            if a.value is None or a.value is Ellipsis:
                return True
            if isinstance(a.value, str):
                try:
                    return self._imm_ann(ast.parse(a.value, mode="eval").body)
                except SyntaxError:
                    return False
        if isinstance(a, ast.Name):
            if a.id in IMM_NAMES:
                return True
            return any(c.full in self.e.enum_classes for c in self.p.cls_by_name.get(a.id, []))
        if isinstance(a, ast.Attribute):
            return a.attr in IMM_NAMES or any(c.full in self.e.enum_classes for c in self.p.cls_by_name.get(a.attr, []))
        if isinstance(a, ast.BinOp):
            return self._imm_ann(a.left) and self._imm_ann(a.right)
        if isinstance(a, ast.Subscript):
            return self._imm_ann(a.value) and self._imm_ann(a.slice)
        if isinstance(a, ast.Tuple):
            return all(self._imm_ann(x) for x in a.elts)
        return False

    def impure_reason(self, f: Func, depth: int = 0, ignore_var: str = "") -> Optional[str]:
        """why the result may depend on something else than the values of the arguments; None when it is pure"""
        if f.qual in self._memo and not ignore_var:
            return self._memo[f.qual]
        if not ignore_var:
            self._memo[f.qual] = None
        r = self._impure(f, depth, ignore_var)
        if not ignore_var:
            self._memo[f.qual] = r
        return r

    def _impure(self, f: Func, depth: int, ignore_var: str) -> Optional[str]:
        p = self.p
        if depth > 12:
            return "its calls are too deep to be followed"
        a = f.node.args  # type: ignore
        allp = a.posonlyargs + a.args + a.kwonlyargs
        if f.cls is not None and not f.is_static:
            return f"it depends on the mutable object '{allp[0].arg if allp else 'self'}'"
        for x in allp:
            t = None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and n.id == x.arg:
                    t = p.mtype(f.module, n)
                    if t is not None:
                        break
            if not (self._imm_ann(x.annotation) or (t is not None and self.e.immutable_type(t))):
                return f"its argument '{x.arg}' is a mutable object (compared by identity, not by value)"
        from . import effects as E
        for n in p.own_nodes(f):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                if any(v != ignore_var for v in n.names):
                    return "it uses a global variable"
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                e = p.mnode(f.module, n)
                nd = getattr(e, "node", None)
                full = getattr(e, "fullname", "") or ""
                if nd is not None and type(nd).__name__ == "Var" and "." in full and full.rsplit(".", 1)[0] in p.modules:
                    if n.id != ignore_var and full in self.written:
                        return f"it reads the module variable {full}, which is modified elsewhere"
            if isinstance(n, ast.Call):
                targets, ext = p.callees(f.module, n)
                if targets:
                    for t in targets:
                        if t is f:
                            continue
                        why = self.impure_reason(t, depth + 1)
                        if why:
                            return f"it calls {t.qual.split('.')[-1]}, and {why}"
                    continue
                d = p.full_name(f.module, n.func) or ext
                last = d.split(".")[-1]
                if isinstance(n.func, ast.Name) and n.func.id in IMPURE_BUILTINS:
                    return f"it calls {n.func.id}()"
                if isinstance(n.func, ast.Name) or any(d.startswith(x) for x in PURE_EXTERNAL) or any(ext.startswith(x) for x in PURE_EXTERNAL):
                    continue
                if isinstance(n.func, ast.Attribute):
                    cl = p.classes_of(f.module, n.func.value)
                    if cl and all(c in E.IMMUTABLE or c.startswith("builtins.") for c in cl):
                        continue
                return f"it calls {d or ast.unparse(n.func)}, which is not known to depend on its arguments only"
        return None

    def immutable_result(self, f: Func) -> bool:
        p = self.p
        rets = [n for n in p.own_nodes(f) if isinstance(n, ast.Return) and n.value is not None]
        for r in rets:
            if self.e.immutable(f.module, r.value):
                continue
            if self.constant_expr(f.module, r.value) and not isinstance(r.value, (ast.List, ast.Dict, ast.Set)):
                continue
            if isinstance(r.value, ast.Call) and p.full_name(f.module, r.value.func) == "re.compile":
                continue
            if not self._imm_ann(f.node.returns):  # type: ignore
                return False
        return True

    def is_memo_store(self, f: Func, n: ast.Assign) -> bool:
        """CACHE[key] = value in a function that is otherwise pure, all of whose arguments are in the key"""
        t = n.targets[0]
        assert isinstance(t, ast.Subscript)
        if not isinstance(t.value, ast.Name):
            return False
        if self.impure_reason(f, 0, t.value.id) is not None or not self.immutable_result(f):
            return False
        # the memo itself is only looked up with a key
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and x.id == t.value.id and isinstance(x.ctx, ast.Load):
                par = self.p.parent_of.get(x)
                if isinstance(par, ast.Subscript) and par.value is x:
                    continue
                if isinstance(par, ast.Compare) and x in par.comparators and all(isinstance(o, (ast.In, ast.NotIn)) for o in par.ops):
                    continue
                if isinstance(par, ast.Attribute) and par.attr in ("get", "keys"):
                    continue
                return False
        names = self._closure(f, t.slice)
        used = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        return all(q in names for q in f.params if q in used)

    def _closure(self, f: Func, e: ast.AST) -> set[str]:
        out: set[str] = set()
        todo = [e]
        while todo:
            x = todo.pop()
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and n.id not in out:
                    out.add(n.id)
                    for a in ast.walk(f.node):
                        if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in a.targets) and isinstance(a.value, (ast.Tuple, ast.Name)):
                            todo.append(a.value)
        return out
