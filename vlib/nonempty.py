"""Lower bound of the length of a sequence where it is indexed by a constant"""
from __future__ import annotations

import ast
from typing import Optional

from .guards import Guards
from .project import Func, Project

NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}
SWAP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


class Lengths:
    def __init__(self, p: Project, g: Optional[Guards] = None):
        self.p = p
        self.g = g or Guards(p)
        self._ret: dict[Func, int] = {}

    # ---------------------------------------------------------------- entry
    def at_least(self, f: Func, node: ast.AST, x: ast.expr, depth: int = 0) -> int:
        """a lower bound of len(x) when node is evaluated in f"""
        g = self.g
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "sorted") and len(x.args) == 1:
            return self.at_least(f, node, x.args[0], depth)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("keys", "values", "items", "copy") and not x.args:
            return self.at_least(f, node, x.func.value, depth)
        X = g.norm(f, x)
        best = self.of_value(f, x, depth)
        raw = ast.unparse(x)
        for e, t in g.at(f, node):
            best = max(best, self.fact(f, e, t, {X, raw}))
        best = max(best, self._dominating(f, node, {X, raw}))
        if best == 0:
            best = self._in_handler(f, node)
        if best == 0 and depth < 2:
            best = self._callers(f, x, depth)
        return best

    # ---------------------------------------------------------------- facts
    def fact(self, f: Func, e: ast.expr, t: bool, names: set[str]) -> int:
        def is_x(a: ast.AST) -> bool:
            return ast.unparse(a) in names or self.g.norm(f, a) in names

        def is_len(a: ast.AST) -> bool:
            a2 = self.g.aliases(f).get(a.id) if isinstance(a, ast.Name) else None
            a = a2 if a2 is not None else a
            return isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" and len(a.args) == 1 and is_x(a.args[0])
        if is_x(e):
            return 1 if t else 0
        if is_len(e):
            return 1 if t else 0
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and t and e.func.attr in ("startswith", "endswith") and is_x(e.func.value) and e.args:
            a = e.args[0]
            vals = a.elts if isinstance(a, ast.Tuple) else [a]
            if all(isinstance(v, ast.Constant) and isinstance(v.value, str) for v in vals):
                return min(len(v.value) for v in vals)
            return 1
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and t and e.func.attr in ("isdigit", "isalpha", "isidentifier", "isspace", "isupper", "islower", "isnumeric", "strip") and is_x(e.func.value):
            return 1
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, op, b = e.left, type(e.ops[0]), e.comparators[0]
            if op is ast.In and t and is_x(b):
                return 1
            if op is ast.In and t and is_len(a) and isinstance(b, (ast.List, ast.Tuple, ast.Set)):
                vs = [v.value for v in b.elts if isinstance(v, ast.Constant) and isinstance(v.value, int)]
                return min(vs) if len(vs) == len(b.elts) and vs else 0
            if not t:
                if op not in NEG:
                    return 0
                op = NEG[op]
            if is_len(b) or (is_x(b) and not is_x(a)):
                if op not in SWAP:
                    return 0
                a, b, op = b, a, SWAP[op]
            if is_len(a):
                if isinstance(b, ast.Constant) and isinstance(b.value, int):
                    k = b.value
                    if op is ast.Eq or op is ast.GtE:
                        return k
                    if op is ast.Gt:
                        return k + 1
                    if op is ast.NotEq and k == 0:
                        return 1
                    return 0
                if op is ast.Gt:
                    return 1
                return 0
            if is_x(a):
                if isinstance(b, ast.Constant) and isinstance(b.value, str) or isinstance(b, (ast.List, ast.Tuple)):
                    k = len(b.value) if isinstance(b, ast.Constant) else len(b.elts)
                    if op is ast.NotEq and k == 0:
                        return 1
                    if op is ast.Eq:
                        return k
        return 0

    # ---------------------------------------------------------------- values
    def of_value(self, f: Func, v: ast.AST, depth: int = 0) -> int:
        if depth > 6:
            return 0
        if isinstance(v, ast.Constant) and isinstance(v.value, (str, bytes)):
            return len(v.value)
        if isinstance(v, (ast.List, ast.Tuple)):
            return sum(1 for e in v.elts if not isinstance(e, ast.Starred))
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
            return self.of_value(f, v.left, depth + 1) + self.of_value(f, v.right, depth + 1)
        if isinstance(v, ast.JoinedStr):
            return sum(len(x.value) for x in v.values if isinstance(x, ast.Constant))
        if isinstance(v, ast.IfExp):
            return min(self.of_value(f, v.body, depth + 1), self.of_value(f, v.orelse, depth + 1))
        if isinstance(v, (ast.ListComp,)) and len(v.generators) == 1 and not v.generators[0].ifs:
            return self.of_value(f, v.generators[0].iter, depth + 1)
        if isinstance(v, ast.Call):
            fn = v.func
            if isinstance(fn, ast.Attribute) and fn.attr in ("split", "rsplit"):
                if isinstance(fn.value, ast.Name) and fn.value.id == "re":
                    return 1
                if v.args and not (isinstance(v.args[0], ast.Constant) and v.args[0].value is None):
                    return 1
            if isinstance(fn, ast.Name) and fn.id in ("list", "tuple", "sorted", "reversed") and len(v.args) == 1:
                return self.of_value(f, v.args[0], depth + 1)
            if isinstance(fn, ast.Attribute) and fn.attr in ("keys", "values", "items", "copy") and not v.args:
                return self.of_value(f, fn.value, depth + 1)
            if isinstance(fn, ast.Attribute) and fn.attr in ("format_stack", "extract_stack", "stack"):
                return 8  # the stack of a running program
            cs, _ = self.p.callees(f.module, v)
            if cs:
                return min(self._returned(c, depth) for c in cs)
        if isinstance(v, ast.Name):
            vals = []
            for n in self.p.own_nodes(f):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in n.targets):
                    vals.append(n.value)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == v.id and n.value is not None:
                    vals.append(n.value)
                elif isinstance(n, ast.Name) and n.id == v.id and isinstance(n.ctx, ast.Store):
                    par = self.p.parent_of.get(n)
                    if not isinstance(par, (ast.Assign, ast.AnnAssign)):
                        return 0
                elif isinstance(n, ast.Delete) and any(isinstance(t, ast.Subscript) and ast.unparse(t.value) == v.id for t in n.targets):
                    return 0
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "clear", "remove", "popleft") and ast.unparse(n.func.value) == v.id:
                    return 0
            if vals and v.id not in f.params:
                return min(self.of_value(f, a, depth + 1) for a in vals)
        return 0

    def _returned(self, c: Func, depth: int) -> int:
        if c in self._ret:
            return self._ret[c]
        self._ret[c] = 0
        rs = [n for n in self.p.own_nodes(c) if isinstance(n, ast.Return)]
        if rs and all(r.value is not None for r in rs) and not c.is_abstract:
            vals = []
            for r in rs:
                b = self.of_value(c, r.value, depth + 1)
                X = {self.g.norm(c, r.value), ast.unparse(r.value)}
                for e, t in self.g.at(c, r):
                    b = max(b, self.fact(c, e, t, X))
                vals.append(max(b, self._dominating(c, r, X)))
            self._ret[c] = min(vals)
        return self._ret[c]

    # ---------------------------------------------------------------- statements
    def _dominating(self, f: Func, node: ast.AST, names: set[str]) -> int:
        """X.append(..) before, in an enclosing block, with nothing removed in between; or iteration over X"""
        p = self.p
        cur: Optional[ast.AST] = node
        best = 0
        while cur is not None and cur is not f.node:
            par = p.parent_of.get(cur)
            if isinstance(par, ast.For) and cur in par.body:
                it = par.iter
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "reversed", "list", "sorted") and it.args:
                    it = it.args[0]
                if ast.unparse(it) in names or self.g.norm(f, it) in names:
                    best = max(best, 1)
            if isinstance(cur, ast.stmt) and par is not None:
                for fld in ("body", "orelse", "finalbody"):
                    blk = getattr(par, fld, None)
                    if isinstance(blk, list) and cur in blk:
                        n = 0
                        for st in reversed(blk[: blk.index(cur)]):
                            removed = False
                            for x in ast.walk(st):
                                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "clear", "remove") and ast.unparse(x.func.value) in names:
                                    removed = True
                                if isinstance(x, (ast.Name, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)) and ast.unparse(x) in names:
                                    removed = True
                            if isinstance(st, ast.If) and not st.orelse and max((self.fact(f, e, t, names) for e, t in self.g.facts(f, st.test, False)), default=0):
                                # if it is empty: it is replaced
                                for s2 in st.body:
                                    if isinstance(s2, ast.Assign) and any(ast.unparse(t) in names for t in s2.targets):
                                        v = s2.value
                                        n = max(n, 1 if isinstance(v, (ast.Name, ast.Attribute)) else self.of_value(f, v, 1))
                            if removed:
                                if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and any(
                                        ast.unparse(t) in names for t in (st.targets if isinstance(st, ast.Assign) else [st.target])):
                                    n += self.of_value(f, st.value, 1)
                                break
                            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr in ("append", "insert"):
                                if ast.unparse(st.value.func.value) in names or self.g.norm(f, st.value.func.value) in names:
                                    n += 1
                            if isinstance(st, ast.If) and not st.orelse:
                                # if the list is empty: something is appended
                                neg = max((self.fact(f, e, t, names) for e, t in self.g.facts(f, st.test, False)), default=0)
                                if neg:
                                    pos = sum(1 for s2 in st.body if isinstance(s2, ast.Expr) and isinstance(s2.value, ast.Call) and isinstance(s2.value.func, ast.Attribute)
                                              and s2.value.func.attr in ("append", "insert") and ast.unparse(s2.value.func.value) in names)
                                    n = max(n, min(neg, pos))
                        best = max(best, n)
            cur = par
        return best

    def _in_handler(self, f: Func, node: ast.AST) -> int:
        cur: Optional[ast.AST] = node
        while cur is not None and cur is not f.node:
            par = self.p.parent_of.get(cur)
            if isinstance(par, ast.Try) and cur in par.body:
                for h in par.handlers:
                    t = ast.unparse(h.type) if h.type is not None else "Exception"
                    if any(k in t for k in ("IndexError", "LookupError", "BaseException")) or t == "Exception":
                        return 99
            cur = par
        return 0

    def _callers(self, f: Func, x: ast.expr, depth: int) -> int:
        """x is a parameter (or reached from one): what every call site guarantees"""
        root = x
        while isinstance(root, (ast.Attribute, ast.Subscript, ast.Call)):
            root = root.func if isinstance(root, ast.Call) else root.value
        if not isinstance(root, ast.Name):
            return 0
        if root.id not in f.params:
            if f.parent is not None and root.id not in self.g.aliases(f):
                # captured variable of the enclosing function: where the nested function is called
                sites = [n for n in self.p.own_nodes(f.parent) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name]
                if sites:
                    return min(self.at_least(f.parent, s, x, depth + 1) for s in sites)
            return 0
        sites2 = self.p.call_sites().get(f.qual, [])
        if not sites2:
            return 0
        i = f.params.index(root.id)
        method = f.cls is not None and not f.is_static
        vals = []
        for cf, mod, call in sites2:
            if cf is None:
                return 0
            arg: Optional[ast.expr] = None
            if method and i == 0:
                if isinstance(call.func, ast.Attribute):
                    arg = call.func.value
                    if isinstance(arg, ast.Call) and ast.unparse(arg) == "super()":
                        arg = ast.Name(id="self", ctx=ast.Load())
            else:
                j = i - 1 if method else i
                if j < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args[: j + 1]):
                    arg = call.args[j]
                for k in call.keywords:
                    if k.arg == root.id:
                        arg = k.value
            if arg is None:
                return 0

            class S(ast.NodeTransformer):
                def visit_Name(self, n: ast.Name):
                    return arg if n.id == root.id else n
            import copy
            y = ast.fix_missing_locations(S().visit(copy.deepcopy(x)))
            vals.append(self.at_least(cf, call, y, depth + 1))
        return min(vals) if vals else 0
