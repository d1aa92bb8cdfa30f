"""Definite assignment: a local variable (or one captured by a nested function) which may be read before it is bound.

Path-sensitive: conditions that are tested several times in the function are remembered, so that correlated branches
(`if a: x = 1` ... `if a: use(x)`) are not reported."""
from __future__ import annotations

import ast
import builtins
from typing import Iterable

from .project import Func, Project
from .sx import Domain, Exec


def bound_names(target: ast.AST) -> set[str]:
    return {n.id for n in ast.walk(target) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


def local_names(p: Project, f: Func) -> set[str]:
    out: set[str] = set()
    outer: set[str] = set()

    def walk(n: ast.AST) -> None:
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for x in ast.walk(c):
                    if isinstance(x, ast.NamedExpr):
                        out.add(x.target.id)
                continue
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                outer.update(c.names)
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split(".")[0])
            if isinstance(c, (ast.MatchAs, ast.MatchStar)) and c.name:
                out.add(c.name)
            walk(c)
    for s in f.body:
        w = ast.Module(body=[s], type_ignores=[])
        walk(w)
    return out - outer - set(f.params)


def enum_members(p: Project, mod, e: ast.AST) -> list[str]:
    """`Color.red` -> the texts of all the members of Color ([] when e is no member of an enum of the project)"""
    if not isinstance(e, ast.Attribute):
        return []
    base = ast.unparse(e.value)
    for c in p.classes.values():
        if c.name == base.split(".")[-1] and any("Enum" in b or "Flag" in b for b in list(c.bases) + [ast.unparse(x) for x in c.node.bases]):
            ms = [t.id for s in c.node.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)]
            if e.attr in ms:
                return [f"{base}.{m}" for m in ms]
    return []


class DA(Domain):
    max_states = 300

    def __init__(self, p: Project, f: Func):
        self.p, self.f = p, f
        self.locals = local_names(p, f)
        self.undefined: dict[tuple[str, int], ast.AST] = {}
        tests: dict[str, int] = {}
        for n in p.own_nodes(f):
            if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                for a in self._atoms(n.test):
                    t = ast.unparse(a)
                    tests[t] = tests.get(t, 0) + 1
        self.tests = {t for t, k in tests.items() if k > 1}
        # names read by nested functions
        self.captured: dict[str, dict[str, ast.AST]] = {}
        for n in p.own_nodes(f):
            pass

    def _atoms(self, t: ast.expr) -> Iterable[ast.expr]:
        if isinstance(t, ast.BoolOp):
            for v in t.values:
                yield from self._atoms(v)
        elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            yield from self._atoms(t.operand)
        else:
            yield t

    # state: (unassigned names, known tests)
    def _reads(self, n: ast.AST, state) -> None:
        un = state[0]
        if not un:
            return
        stack = [(n, frozenset())]
        while stack:
            x, hidden = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                for d in getattr(x, "decorator_list", []):
                    stack.append((d, hidden))
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                h = hidden
                for g in x.generators:
                    h = h | bound_names(g.target)
                for c in ast.iter_child_nodes(x):
                    stack.append((c, h))
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in un and x.id not in hidden:
                self.undefined[(x.id, x.lineno)] = x
            # a nested function which is called here reads what it captures
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                for name in self.nested_reads(x.func.id):
                    if name in un:
                        self.undefined[(name, x.lineno)] = x
            for c in ast.iter_child_nodes(x):
                stack.append((c, hidden))

    def nested_reads(self, fname: str) -> set[str]:
        r = self.captured.get(fname)
        if r is None:
            r = {}
            self.captured[fname] = r
            for n in self.p.own_nodes(self.f):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == fname:
                    g = self.p.func_of_node.get(n)
                    if g is None:
                        continue
                    loc = local_names(self.p, g) | set(g.params)
                    # only what is read unconditionally
                    for s in g.body:
                        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Expr, ast.Return, ast.AugAssign)):
                            for x in ast.walk(s):
                                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in loc:
                                    r[x.id] = x
                        if isinstance(s, (ast.Return, ast.Raise)):
                            break
        return set(r)

    def _binds(self, n: ast.AST, state):
        un, facts = state
        names: set[str] = set()
        dels: set[str] = set()
        for x in self._walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Del):
                dels.add(x.id)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.AnnAssign) and n.value is None:
            names = set()
        un2 = (un - names) | (dels & self.locals)
        touched = names | dels
        attrs = {ast.unparse(x) for x in self._walk(n) if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Store)}
        if touched or attrs:
            facts = frozenset((t, v) for t, v in facts if not self._reads_any(t, touched) and not any(a in t for a in attrs))
        return self._mk(un2, facts)

    def _mk(self, un, facts):
        return (un, facts if un else frozenset())

    _cache: dict = {}

    def _reads_any(self, text: str, names: set[str]) -> bool:
        r = self._cache.get(text)
        if r is None:
            r = {x.id for x in ast.walk(ast.parse(text, mode="eval")) if isinstance(x, ast.Name)}
            self._cache[text] = r
        return bool(r & names)

    def _walk(self, n: ast.AST):
        stack = [n]
        while stack:
            x = stack.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for y in ast.walk(x):
                    if isinstance(y, ast.NamedExpr):
                        yield y.target
                continue
            stack.extend(ast.iter_child_nodes(x))

    def stmt(self, node, state):
        self._reads(node, state)
        if isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name) and node.target.id in state[0]:
            self.undefined[(node.target.id, node.lineno)] = node
        return [self._binds(node, state)]

    def expr(self, node, state):
        self._reads(node, state)
        return [self._binds(node, state)]

    def atom(self, test, state, truth):
        self._reads(test, state)
        un, facts = self._binds(test, state)
        t = ast.unparse(test)
        if un and isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
            ms = enum_members(self.p, self.f.module, test.comparators[0])
            if ms:
                left = ast.unparse(test.left)
                positive = truth == isinstance(test.ops[0], (ast.Eq, ast.Is))
                me = ast.unparse(test.comparators[0])
                known = {t2: v for t2, v in facts}
                if positive:
                    if known.get(f"{left} == {me}") is False:
                        return []
                    for m in ms:
                        if known.get(f"{left} == {m}") is True and m != me:
                            return []
                    return [self._mk(un, facts | {(f"{left} == {m}", m == me) for m in ms})]
                if known.get(f"{left} == {me}") is True:
                    return []
                facts = facts | {(f"{left} == {me}", False)}
                if all((f"{left} == {m}", False) in facts for m in ms):
                    return []
                return [self._mk(un, facts)]
        if t in self.tests and un:
            if (t, not truth) in facts:
                return []
            facts = facts | {(t, truth)}
        return [self._mk(un, facts)]

    def bind_loop(self, node, state):
        return [self._binds(node.target, state)]

    def bind_with(self, item, state):
        self._reads(item.context_expr, state)
        s = self._binds(item.context_expr, state)
        if item.optional_vars is not None:
            s = self._binds(item.optional_vars, s)
        return [s]

    def bind_handler(self, h, state):
        un, facts = state
        if h.name:
            un = un - {h.name}
        return [self._mk(un, facts)]

    def match_exhaustive(self, st: ast.Match) -> bool:
        seen = set()
        ms: list[str] = []
        for c in st.cases:
            if c.guard is not None:
                continue
            for pt in c.pattern.patterns if isinstance(c.pattern, ast.MatchOr) else [c.pattern]:
                if isinstance(pt, ast.MatchValue):
                    ms = ms or enum_members(self.p, self.f.module, pt.value)
                    seen.add(ast.unparse(pt.value))
        return bool(ms) and set(ms) <= seen

    def join(self, states):
        un = frozenset().union(*[s[0] for s in states])
        return {(un, frozenset())}


def undefined_reads(p: Project, f: Func) -> list[tuple[str, ast.AST]]:
    d = DA(p, f)
    if not d.locals:
        return []
    Exec(d).run(f.body, [(frozenset(d.locals), frozenset())])
    return [(k[0], n) for k, n in sorted(d.undefined.items(), key=lambda x: x[0][1])]
