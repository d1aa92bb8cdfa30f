"""Conditions which are known to hold where an expression is evaluated.

guards(node) collects, from the innermost statement outwards: the tests of the enclosing if / while / conditional
expression / and / or / comprehension, the negation of the tests of preceding statements that leave the block
(`if not ok: return`), and the preceding assertions.  Conditions are decomposed (not / and / or), single-assignment
local variables are replaced by what they hold, and calls of predicates whose body is one returned expression are
opened.  A condition is dropped when a variable it reads is rebound between the test and the node."""
from __future__ import annotations

import ast
import copy
from typing import Iterator, Optional

from .project import Func, Project


def terminates(body: list[ast.stmt]) -> bool:
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return bool(s.orelse) and terminates(s.body) and terminates(s.orelse)
    if isinstance(s, ast.With):
        return terminates(s.body)
    if isinstance(s, ast.Try):
        if terminates(s.finalbody):
            return True
        return (terminates(s.body) or terminates(s.orelse)) and all(terminates(h.body) for h in s.handlers)
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        fn = ast.unparse(s.value.func)
        return fn in ("sys.exit", "exit", "os._exit")
    if isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value:
        return True
    return False


class Guards:
    def __init__(self, p: Project):
        self.p = p
        self._alias: dict[Func, dict[str, ast.expr]] = {}
        self._pred: dict[Func, Optional[ast.expr]] = {}
        self._g: dict[ast.AST, list] = {}

    # ------------------------------------------------------------ calls that never return
    def never_returns(self, g: Func, depth: int = 0) -> bool:
        c = self.__dict__.setdefault("_nr", {})
        if g not in c:
            c[g] = False
            if not isinstance(g.node, ast.Lambda) and not g.is_abstract:
                ann = g.node.returns
                c[g] = (ann is not None and ast.unparse(ann).split(".")[-1] in ("NoReturn", "Never")) or (
                    not any(isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) for n in self.p.own_nodes(g)) and isinstance(g.body[-1], ast.Raise))
        return c[g]

    def terminates(self, f: Func, body: list[ast.stmt]) -> bool:
        if terminates(body):
            return True
        if not body:
            return False
        s = body[-1]
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            fs, _ = self.p.callees(f.module, s.value)
            return bool(fs) and all(self.never_returns(g) for g in fs)
        if isinstance(s, ast.If):
            return bool(s.orelse) and self.terminates(f, s.body) and self.terminates(f, s.orelse)
        if isinstance(s, ast.With):
            return self.terminates(f, s.body)
        return False

    # ------------------------------------------------------------ normal forms
    def aliases(self, f: Func) -> dict[str, ast.expr]:
        r = self._alias.get(f)
        if r is None:
            r = {}
            count: dict[str, int] = {}
            vals: dict[str, ast.expr] = {}
            for n in self.p.own_nodes(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    count[n.id] = count.get(n.id, 0) + 1
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    vals[n.targets[0].id] = n.value
                if isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                    vals[n.target.id] = n.value
                if isinstance(n, ast.NamedExpr) and isinstance(n.target, ast.Name):
                    vals[n.target.id] = n.value
            for k, v in vals.items():
                if count.get(k) == 1 and k not in f.params:
                    r[k] = v
            self._alias[f] = r
        return r

    def norm(self, f: Func, n: ast.AST, depth: int = 0) -> str:
        """text of an expression, single-assignment variables holding access paths being expanded"""
        return ast.unparse(self.expand(f, n, depth))

    def expand(self, f: Func, n: ast.AST, depth: int = 0) -> ast.AST:
        al = self.aliases(f)
        me = self

        class T(ast.NodeTransformer):
            def visit_Name(self, x: ast.Name):
                if isinstance(x.ctx, ast.Load) and x.id in al and depth < 4 and me._path(al[x.id]):
                    return me.expand(f, al[x.id], depth + 1)
                return x

            def visit_Call(self, x: ast.Call):
                self.generic_visit(x)
                # cast(T, e) is e
                if isinstance(x.func, (ast.Name, ast.Attribute)) and ast.unparse(x.func).split(".")[-1] == "cast" and len(x.args) == 2:
                    return x.args[1]
                return x

        return T().visit(copy.deepcopy(n))

    def _path(self, v: ast.AST) -> bool:
        """an access path: names, attributes, accessor calls without argument, constant subscripts"""
        if isinstance(v, ast.Name):
            return True
        if isinstance(v, ast.Attribute):
            return self._path(v.value)
        if isinstance(v, ast.Call):
            if not v.args and not v.keywords and isinstance(v.func, ast.Attribute):
                return self._path(v.func.value)
            if len(v.args) == 2 and ast.unparse(v.func).split(".")[-1] == "cast":
                return self._path(v.args[1])
            return False
        if isinstance(v, ast.Subscript):
            return self._path(v.value) and isinstance(v.slice, (ast.Constant, ast.Name))
        return False

    # ------------------------------------------------------------ predicates
    def predicate(self, f: Func) -> Optional[ast.expr]:
        """the expression returned by a function made of one return (after assertions and single assignments)"""
        if f not in self._pred:
            self._pred[f] = None
            body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            body = [s for s in body if not isinstance(s, (ast.Import, ast.ImportFrom, ast.Assert, ast.Pass))]
            if body and isinstance(body[-1], ast.Return) and body[-1].value is not None and all(isinstance(s, (ast.Assign, ast.AnnAssign)) for s in body[:-1]):
                al = self.aliases(f)

                class T(ast.NodeTransformer):
                    depth = 0

                    def visit_Name(self, x: ast.Name):
                        if isinstance(x.ctx, ast.Load) and x.id in al and self.depth < 6:
                            self.depth += 1
                            r = self.visit(copy.deepcopy(al[x.id]))
                            self.depth -= 1
                            return r
                        return x
                e = T().visit(copy.deepcopy(body[-1].value))
                names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
                ok = all(isinstance(s, (ast.Assign, ast.AnnAssign)) for s in body[:-1])
                if ok:
                    self._pred[f] = e
        return self._pred[f]

    def open_call(self, f: Func, call: ast.Call) -> list[ast.expr]:
        """the expressions to which a predicate call is equal (one per possible target), or []"""
        fs, _ = self.p.callees(f.module, call)
        out: list[ast.expr] = []
        for g in fs:
            e = self.predicate(g)
            if e is None:
                return []
            sub: dict[str, ast.expr] = {}
            params = list(g.params)
            args = list(call.args)
            if g.cls is not None and not g.is_static and params:
                if isinstance(call.func, ast.Attribute):
                    sub[params[0]] = call.func.value
                params = params[1:]
            for prm, a in zip(params, args):
                sub[prm] = a
            for k in call.keywords:
                if k.arg:
                    sub[k.arg] = k.value

            class S(ast.NodeTransformer):
                def visit_Name(self, x: ast.Name):
                    return copy.deepcopy(sub[x.id]) if x.id in sub else x
            out.append(S().visit(copy.deepcopy(e)))
        return out

    # ------------------------------------------------------------ conditions
    def facts(self, f: Func, test: ast.expr, truth: bool, depth: int = 0) -> list[tuple[ast.expr, bool]]:
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.facts(f, test.operand, not truth, depth)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == truth:
                return [x for v in test.values for x in self.facts(f, v, truth, depth)]
            # one of them only: what is common to all of them
            alts = [self.facts(f, v, truth, depth) for v in test.values]
            common = []
            for e, t in alts[0]:
                k = (ast.dump(e), t)
                if all(any((ast.dump(e2), t2) == k for e2, t2 in a) for a in alts[1:]):
                    common.append((e, t))
            return common + [(test, truth)]
        if isinstance(test, ast.NamedExpr):
            return self.facts(f, test.value, truth, depth) + [(test.target, truth)]
        out: list[tuple[ast.expr, bool]] = [(test, truth)]
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "bool" and len(test.args) == 1:
            return out + self.facts(f, test.args[0], truth, depth)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and isinstance(test.comparators[0].value, bool):
            eq = isinstance(test.ops[0], (ast.Is, ast.Eq))
            if eq or isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
                return out + self.facts(f, test.left, truth == (test.comparators[0].value == eq), depth)
        if depth < 4:
            if isinstance(test, ast.Name) and isinstance(test.ctx, ast.Load):
                v = self.aliases(f).get(test.id)
                if v is not None:
                    out += self.facts(f, v, truth, depth + 1)
            if isinstance(test, ast.Call):
                alts = [self.facts(f, e, truth, depth + 1) for e in self.open_call(f, test)]
                if len(alts) == 1:
                    out += alts[0]
                elif alts:
                    for e, t in alts[0]:
                        k = (ast.dump(e), t)
                        if all(any((ast.dump(e2), t2) == k for e2, t2 in a) for a in alts[1:]):
                            out.append((e, t))
        return out

    def conditions(self, f: Func, node: ast.AST) -> Iterator[tuple[ast.expr, bool, ast.AST]]:
        """(test, truth, where) governing the evaluation of node within f"""
        p = self.p
        cur: ast.AST = node
        while cur is not f.node:
            par = p.parent_of.get(cur)
            if par is None:
                return
            if isinstance(par, (ast.If, ast.While)):
                if cur in par.body:
                    yield par.test, True, par
                elif cur in par.orelse and isinstance(par, ast.If):
                    yield par.test, False, par
            elif isinstance(par, ast.IfExp):
                if cur is par.body:
                    yield par.test, True, par
                elif cur is par.orelse:
                    yield par.test, False, par
            elif isinstance(par, ast.BoolOp):
                for v in par.values:
                    if v is cur:
                        break
                    yield v, isinstance(par.op, ast.And), par
            elif isinstance(par, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                if cur not in par.generators:
                    for g in par.generators:
                        for c in g.ifs:
                            yield c, True, par
            elif isinstance(par, ast.comprehension):
                for c in par.ifs:
                    if c is cur:
                        break
                    yield c, True, par
            elif isinstance(par, ast.Assert) and cur is par.msg:
                yield par.test, False, par
            # preceding statements of the block
            if isinstance(cur, ast.stmt):
                for fld in ("body", "orelse", "finalbody"):
                    blk = getattr(par, fld, None)
                    if isinstance(blk, list) and cur in blk:
                        for st in reversed(blk[: blk.index(cur)]):
                            if isinstance(st, ast.Assert):
                                yield st.test, True, st
                            elif isinstance(st, ast.If):
                                if self.terminates(f, st.body) and not self.terminates(f, st.orelse):
                                    yield st.test, False, st
                                elif st.orelse and self.terminates(f, st.orelse) and not self.terminates(f, st.body):
                                    yield st.test, True, st
                            elif isinstance(st, ast.While) and not any(isinstance(x, ast.Break) for x in ast.walk(st)):
                                yield st.test, False, st
            cur = par
            if isinstance(cur, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and cur is not f.node:
                # nested function: conditions of its definition site do not hold at the call
                return

    def at(self, f: Func, node: ast.AST) -> list[tuple[ast.expr, bool]]:
        r = self._g.get(node)
        if r is None:
            r = []
            for test, truth, where in self.conditions(f, node):
                for e, t in self.facts(f, test, truth):
                    if not self._killed(f, e, where, node):
                        r.append((e, t))
            self._unit(f, r)
            self._g[node] = r
        return r

    def _unit(self, f: Func, r: list) -> None:
        """unit propagation: (a or b) and not a give b"""
        for _ in range(3):
            known = {(self.norm(f, e), t) for e, t in r}
            new = []
            for e, t in r:
                if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) == t:
                    # t: one of the operands has the truth t
                    left = []
                    for v in e.values:
                        x, tv = v, t
                        while isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
                            x, tv = x.operand, not tv
                        if (self.norm(f, x), not tv) not in known:
                            left.append((x, tv))
                    if len(left) == 1:
                        for y in self.facts(f, left[0][0], left[0][1]):
                            if (self.norm(f, y[0]), y[1]) not in known:
                                new.append(y)
            if not new:
                return
            r += new

    def _killed(self, f: Func, e: ast.expr, where: ast.AST, node: ast.AST) -> bool:
        """a variable read by the condition is rebound between the test and the node"""
        names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
        paths = {ast.unparse(x) for x in ast.walk(e) if isinstance(x, (ast.Attribute, ast.Subscript))}
        a = (where.lineno, where.col_offset)  # type: ignore
        st = node
        while not isinstance(st, ast.stmt):
            nx = self.p.parent_of.get(st)
            if nx is None:
                return False
            st = nx
        b = (st.lineno, st.col_offset)
        if b <= a:
            return False
        for n in self.p.own_nodes(f):
            if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and a < (n.lineno, n.col_offset) < b:
                if isinstance(n, ast.Name) and n.id in names or not isinstance(n, ast.Name) and ast.unparse(n) in paths:
                    # a rebinding in the body of a preceding statement that leaves does not count
                    if not self._dead_end(f, n, node):
                        return True
        return False

    def _dead_end(self, f: Func, n: ast.AST, node: ast.AST) -> bool:
        cur = n
        anc = set()
        x: Optional[ast.AST] = node
        while x is not None:
            anc.add(x)
            x = self.p.parent_of.get(x)
        while True:
            par = self.p.parent_of.get(cur)
            if par is None or par in anc:
                # cur is a sibling (or an ancestor's other branch)
                if par is not None and isinstance(par, ast.If):
                    inb = cur in par.body
                    other = any(c in anc for c in (par.orelse if inb else par.body))
                    if other:
                        return True
                return False
            if isinstance(par, ast.If):
                blk = par.body if cur in par.body else par.orelse if cur in par.orelse else []
                if blk and self.terminates(f, blk) and par not in anc:
                    return True
            cur = par
