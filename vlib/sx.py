"""Structured path executor: abstract execution of a function body, disjunctive over abstract states.

A domain gives the transfer functions; the executor handles every Python control structure the
repository uses, including break / continue / else / try / except / finally / with / match."""
from __future__ import annotations

import ast
from typing import Any, Iterable


class Out:
    __slots__ = ("fall", "ret", "brk", "cont", "exc")

    def __init__(self) -> None:
        self.fall: set = set()
        self.ret: set = set()  # (node, state)
        self.brk: set = set()
        self.cont: set = set()
        self.exc: set = set()  # (node or None, state)

    def merge_abrupt(self, o: "Out") -> None:
        self.ret |= o.ret
        self.brk |= o.brk
        self.cont |= o.cont
        self.exc |= o.exc


class Domain:
    """Default domain: the state is never changed"""
    track_exceptions = True
    max_states = 400
    max_iter = 12

    def stmt(self, node: ast.stmt, state: Any) -> Iterable[Any]:
        return [state]

    def expr(self, node: ast.expr, state: Any) -> Iterable[Any]:
        return [state]

    def atom(self, test: ast.expr, state: Any, truth: bool) -> Iterable[Any]:
        """state refined by the truth of an atomic test ([] when impossible). The effects of evaluating
        the test are included."""
        return self.expr(test, state)

    def bind_loop(self, node: ast.For, state: Any) -> Iterable[Any]:
        """one more element is bound to the target"""
        return [state]

    def loop_exit(self, node: ast.stmt, state: Any) -> Iterable[Any]:
        return [state]

    def bind_with(self, item: ast.withitem, state: Any) -> Iterable[Any]:
        return self.expr(item.context_expr, state)

    def exit_with(self, node: ast.With, state: Any) -> Iterable[Any]:
        return [state]

    def bind_handler(self, h: ast.ExceptHandler, state: Any) -> Iterable[Any]:
        return [state]

    def may_raise(self, node: ast.AST) -> bool:
        for n in ast.walk(node):
            if isinstance(n, (ast.Call, ast.Subscript, ast.Raise, ast.Assert, ast.BinOp, ast.Await)):
                return True
        return False

    def handler_catches(self, h: ast.ExceptHandler, exc_node) -> bool:
        return True

    def catches_all(self, handlers: list[ast.ExceptHandler]) -> bool:
        for h in handlers:
            if h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ("BaseException",)):
                return True
        return False

    def match_case(self, st: ast.Match, case: ast.match_case, state: Any) -> tuple[Iterable[Any], Iterable[Any]]:
        return [state], [state]

    def match_exhaustive(self, st: ast.Match) -> bool:
        return False

    def join(self, states: set) -> set:
        return states

    def visit(self, node: ast.AST, state: Any) -> None:
        """called for each reached statement"""


NEVER = object()


class Exec:
    def __init__(self, dom: Domain):
        self.d = dom

    def _cap(self, s: set) -> set:
        if len(s) > self.d.max_states:
            return set(self.d.join(s))
        return s

    def run(self, body: list[ast.stmt], states: Iterable[Any]) -> Out:
        return self.block(body, set(states))

    def block(self, body: list[ast.stmt], states: set) -> Out:
        out = Out()
        cur = set(states)
        for st in body:
            if not cur:
                break
            nxt: set = set()
            for s in cur:
                self.d.visit(st, s)
            o = self.statement(st, cur)
            out.merge_abrupt(o)
            nxt = o.fall
            cur = self._cap(nxt)
        out.fall = cur
        return out

    def flat(self, f, node, states: set) -> set:
        r: set = set()
        for s in states:
            for x in f(node, s):
                r.add(x)
        return self._cap(r)

    def cond(self, test: ast.expr, states: set, truth: bool) -> set:
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.cond(test.operand, states, not truth)
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And) == truth
            if conj:
                cur = states
                for v in test.values:
                    cur = self.cond(v, cur, truth)
                return cur
            res: set = set()
            cur = states
            for v in test.values:
                res |= self.cond(v, cur, truth)
                cur = self.cond(v, cur, not truth)
            return self._cap(res)
        if isinstance(test, ast.Constant):
            return set(states) if bool(test.value) == truth else set()
        if isinstance(test, ast.NamedExpr):
            r: set = set()
            for s in states:
                for x in self.d.expr(test, s):
                    r |= set(self.d.atom(test.target, x, truth))
            return r
        r = set()
        for s in states:
            r |= set(self.d.atom(test, s, truth))
        return self._cap(r)

    def _exc(self, node: ast.AST, states: set, out: Out) -> None:
        if self.d.track_exceptions and self.d.may_raise(node):
            for s in states:
                out.exc.add((node, s))

    def statement(self, st: ast.stmt, states: set) -> Out:
        out = Out()
        d = self.d
        if isinstance(st, ast.If):
            self._exc(st.test, states, out)
            a = self.block(st.body, self.cond(st.test, states, True))
            b = self.block(st.orelse, self.cond(st.test, states, False))
            out.merge_abrupt(a)
            out.merge_abrupt(b)
            out.fall = a.fall | b.fall
        elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            self._loop(st, states, out)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            cur = states
            for it in st.items:
                self._exc(it.context_expr, cur, out)
                cur = self.flat(d.bind_with, it, cur)
            o = self.block(st.body, cur)

            def ex(s):
                return d.exit_with(st, s)
            for s in o.fall:
                out.fall |= set(ex(s))
            for (n, s) in o.ret:
                for x in ex(s):
                    out.ret.add((n, x))
            for s in o.brk:
                out.brk |= set(ex(s))
            for s in o.cont:
                out.cont |= set(ex(s))
            for (n, s) in o.exc:
                for x in ex(s):
                    out.exc.add((n, x))
        elif isinstance(st, ast.Try):
            self._try(st, states, out)
        elif isinstance(st, ast.Return):
            cur = states
            if st.value is not None:
                self._exc(st.value, states, out)
                cur = self.flat(d.stmt, st, states)
            else:
                cur = self.flat(d.stmt, st, states)
            for s in cur:
                out.ret.add((st, s))
        elif isinstance(st, ast.Raise):
            cur = self.flat(d.stmt, st, states)
            for s in cur:
                out.exc.add((st, s))
        elif isinstance(st, ast.Break):
            out.brk |= states
        elif isinstance(st, ast.Continue):
            out.cont |= states
        elif isinstance(st, ast.Assert):
            self._exc(st, states, out)
            out.fall = self.cond(st.test, states, True)
        elif isinstance(st, ast.Match):
            self._exc(st.subject, states, out)
            cur = self.flat(d.expr, st.subject, states)
            exhaustive = False
            for c in st.cases:
                yes: set = set()
                no: set = set()
                for s in cur:
                    a, b = d.match_case(st, c, s)
                    yes |= set(a)
                    no |= set(b)
                o = self.block(c.body, yes)
                cur = no
                out.merge_abrupt(o)
                out.fall |= o.fall
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    exhaustive = True
            if not exhaustive and not d.match_exhaustive(st):
                out.fall |= cur
        elif isinstance(st, ast.Expr) and is_noreturn(st.value):
            for s in self.flat(d.stmt, st, states):
                out.exc.add((st, s))
        else:
            self._exc(st, states, out)
            out.fall = self.flat(d.stmt, st, states)
        out.fall = self._cap(out.fall)
        return out

    def _loop(self, st, states: set, out: Out) -> None:
        d = self.d
        if isinstance(st, (ast.For, ast.AsyncFor)):
            self._exc(st.iter, states, out)
            head = self.flat(d.expr, st.iter, states)
        else:
            head = set(states)
        seen: set = set(head)
        work = set(head)
        exits: set = set()
        for _ in range(d.max_iter):
            if isinstance(st, (ast.For, ast.AsyncFor)):
                entry: set = set()
                for s in work:
                    entry |= set(d.bind_loop(st, s))
            else:
                self._exc(st.test, work, out)
                entry = self.cond(st.test, work, True)
            o = self.block(st.body, entry)
            out.ret |= o.ret
            out.exc |= o.exc
            exits |= o.brk
            nxt = o.fall | o.cont
            nxt = self._cap(nxt)
            new = nxt - seen
            if not new:
                break
            seen |= new
            work = new
        normal: set = set()
        if isinstance(st, (ast.For, ast.AsyncFor)):
            for s in seen:
                normal |= set(d.loop_exit(st, s))
        else:
            for s in self.cond(st.test, seen, False):
                normal |= set(d.loop_exit(st, s))
        if st.orelse:
            o = self.block(st.orelse, normal)
            out.merge_abrupt(o)
            normal = o.fall
        out.fall = self._cap(normal | exits)

    def _try(self, st: ast.Try, states: set, out: Out) -> None:
        d = self.d
        inner = Out()
        body = self.block(st.body, states)
        inner.ret |= body.ret
        inner.brk |= body.brk
        inner.cont |= body.cont
        if st.handlers:
            for h in st.handlers:
                hs = set()
                for (n, s) in body.exc:
                    if d.handler_catches(h, n):
                        hs |= set(d.bind_handler(h, s))
                if hs:
                    o = self.block(h.body, hs)
                    inner.merge_abrupt(o)
                    inner.fall |= o.fall
            if not d.catches_all(st.handlers):
                inner.exc |= body.exc
        else:
            inner.exc |= body.exc
        fall = body.fall
        if st.orelse:
            o = self.block(st.orelse, fall)
            inner.merge_abrupt(o)
            fall = o.fall
        inner.fall |= fall
        if st.finalbody:
            def fin(ss: set) -> Out:
                return self.block(st.finalbody, ss)
            o = fin(inner.fall)
            out.merge_abrupt(o)
            out.fall |= o.fall
            for (n, s) in inner.ret:
                o = fin({s})
                out.merge_abrupt(o)
                for x in o.fall:
                    out.ret.add((n, x))
            for kind in ("brk", "cont"):
                ss = getattr(inner, kind)
                if ss:
                    o = fin(ss)
                    out.merge_abrupt(o)
                    getattr(out, kind).update(o.fall)
            for (n, s) in inner.exc:
                o = fin({s})
                out.merge_abrupt(o)
                for x in o.fall:
                    out.exc.add((n, x))
        else:
            out.merge_abrupt(inner)
            out.fall |= inner.fall


def is_noreturn(e: ast.expr) -> bool:
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "sys" and f.attr == "exit":
            return True
        if isinstance(f, ast.Name) and f.id in ("exit", "quit"):
            return True
    return False
