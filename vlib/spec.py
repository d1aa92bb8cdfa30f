"""Specialised reachability: abstract evaluation of the program under an assumption.

The program is evaluated over a small constant domain (finite sets of constants, enum members and symbols; anything else is
unknown), interprocedurally (one context per tuple of abstract arguments) and path-sensitively (vlib.sx). A hook states the
assumption by giving the abstract value of attributes and calls: "the binding library is nanobind", "the user's exclusion regex
matches". Branches whose condition is then false are not entered; what is left is what may be executed under the assumption."""
from __future__ import annotations

import ast
from collections import defaultdict
from typing import Any, Iterable, Optional

from vlib.project import Func, Module, Project, dotted
from vlib.sx import Domain, Exec

TOP = None  # unknown
V = Optional[frozenset]
MAXSET = 8
MAXCTX = 24
BOT: frozenset = frozenset()
TRUE, FALSE, NONE = frozenset([True]), frozenset([False]), frozenset([None])
BOOL = frozenset([True, False])


def const(*xs: Any) -> frozenset:
    return frozenset(K(x) for x in xs)


class K(tuple):
    """a constant with its type (1, True and 1.0 are different)"""
    __slots__ = ()

    def __new__(cls, v: Any):
        return tuple.__new__(cls, (type(v).__name__, v))

    @property
    def v(self) -> Any:
        return self[1]


class Sym(str):
    """a symbolic constant (equal to itself only, truth unknown)"""
    __slots__ = ()


class TrueSym(Sym):
    """a symbolic constant known to be true (a non-empty text or collection)"""
    __slots__ = ()


TRUE, FALSE, NONE = const(True), const(False), const(None)
BOOL = TRUE | FALSE
EMPTY = frozenset([("empty",)])


def sym(v: "V") -> Optional[str]:
    """the text of the symbol, when the value is one symbol"""
    if v is not TOP and len(v) == 1:
        x = next(iter(v))
        if isinstance(x, K) and isinstance(x.v, Sym):
            return str(x.v)
    return None


def S(text: str, true: bool = False) -> frozenset:
    return const(TrueSym(text) if true else Sym(text))


def join(a: V, b: V) -> V:
    if a is TOP or b is TOP:
        return TOP
    r = a | b
    return TOP if len(r) > MAXSET else r


def truths(v: V) -> set[bool]:
    if v is TOP:
        return {True, False}
    out: set[bool] = set()
    for x in v:
        if isinstance(x, K):
            if isinstance(x.v, TrueSym):
                out.add(True)
            elif isinstance(x.v, Sym):
                out |= {True, False}
            else:
                out.add(bool(x.v))
        elif isinstance(x, tuple) and x[0] in ("enum", "fn", "cls"):
            out.add(True)
        elif x == ("empty",):
            out.add(False)
        elif isinstance(x, tuple) and x[0] == "dict":
            out.add(bool(x[1].keys))
        else:
            out |= {True, False}
    return out


class Hook:
    """the assumption"""

    def attr(self, s: "Spec", f: Func, node: ast.Attribute, base: V) -> Any:
        return NotImplemented

    def call(self, s: "Spec", f: Func, node: ast.Call, targets: list[Func], ext: str, args: dict[Any, V]) -> Any:
        """the value of the call, which is then not entered"""
        return NotImplemented

    def test(self, s: "Spec", f: Func, node: ast.expr, env: dict) -> Any:
        """value of any expression, before its evaluation"""
        return NotImplemented

    def loop(self, s: "Spec", f: Func, node: ast.For, env: dict) -> Any:
        """value of the target of a loop"""
        return NotImplemented

    def result(self, s: "Spec", f: Func, node: ast.Call, fv: V, args: dict[Any, V]) -> Any:
        """the value of the call, which is entered nevertheless"""
        return NotImplemented

    def element(self, s: "Spec", f: Func, it: ast.expr, v: V) -> Any:
        """the value of an element of a collection of value v"""
        return NotImplemented

    def nonempty(self, s: "Spec", f: Func, it: ast.expr, v: V) -> bool:
        """is the collection assumed to have at least one element"""
        return False

    def compare(self, s: "Spec", f: Func, op: ast.cmpop, l: V, r: V) -> Any:
        return NotImplemented

    def construct(self, s: "Spec", f: Func, node: ast.Call, cls: str, args: dict[Any, V]) -> bool:
        """does this construction make an object (of one of the followed classes)"""
        return True

    def store(self, s: "Spec", f: Func, t: ast.Attribute, v: V) -> None:
        """an attribute receives the value"""

    def emit(self, s: "Spec", f: Func, node: ast.AST, v: V) -> None:
        """the value becomes part of a text"""


class Ctx:
    __slots__ = ("f", "args", "key", "ret", "callers", "via", "attrs", "ran")

    def __init__(self, f: Func, args: tuple):
        self.f, self.args = f, args
        self.ret: V = BOT
        self.callers: set["Ctx"] = set()
        self.via: Optional[tuple["Ctx", ast.AST]] = None
        self.ran = 0


class Spec:
    def __init__(self, p: Project, hook: Hook, top_attr_classes: Iterable[str] = (), follow: Iterable[str] = ()):
        self.p, self.hook = p, hook
        # classes whose methods are entered only once an object of the class has been constructed
        self.follow: dict[str, set[str]] = {c: {x for x in p.subtypes(c)} | {c} for c in follow}
        self.open = False  # the analysed code works on objects made elsewhere: nothing is known of attributes
        self.made: dict[str, tuple[Ctx, ast.AST]] = {}
        self.waiting: dict[str, set[Ctx]] = defaultdict(set)
        self.ctxs: dict[tuple, Ctx] = {}
        self.perfunc: dict[Func, int] = defaultdict(int)
        self.reached: dict[ast.AST, Ctx] = {}
        self.todo: list[Ctx] = []
        self.queued: set[Ctx] = set()
        self.attrs: dict[tuple[str, str], V] = {}
        self.attr_readers: dict[tuple[str, str], set[Ctx]] = defaultdict(set)
        self.free: dict[tuple[Func, str], V] = {}
        self.free_readers: dict[tuple[Func, str], set[Ctx]] = defaultdict(set)
        self.globals: dict[tuple[str, str], V] = {}
        self.all_top_attrs = set(top_attr_classes)
        self._stored = self._stored_attrs()
        self._forced: set[tuple] = set()
        self.refs_done: set[Func] = set()
        self.runs = 0

    # ------------------------------------------------------------- program facts
    def _stored_attrs(self) -> set[str]:
        c = self.p.__dict__.get("_spec_stored")
        if c is None:
            c = set()
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        c.add(n.attr)
            self.p.__dict__["_spec_stored"] = c
        return c

    def is_enum(self, full: str) -> bool:
        return any(b.split(".")[-1] in ("Enum", "IntEnum", "Flag", "StrEnum") for b in self.p.mro(full)) if full in self.p.classes else False

    def locals_of(self, f: Func) -> set[str]:
        c = self.p.__dict__.setdefault("_spec_locals", {})
        r = c.get(f)
        if r is None:
            r = set(f.params)
            gl: set[str] = set()
            for n in self.p.own_nodes(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    r.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    r.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    r.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    gl |= set(n.names)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        r.add((a.asname or a.name).split(".")[0])
            r -= gl
            c[f] = r
        return r

    def captured(self, f: Func) -> set[str]:
        """local variables which nested functions use"""
        c = self.p.__dict__.setdefault("_spec_captured", {})
        r = c.get(f)
        if r is None:
            r = set()
            for x in ast.walk(f.node):
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and x is not f.node:
                    r |= {n.id for n in ast.walk(x) if isinstance(n, ast.Name)}
            c[f] = r
        return r

    # ------------------------------------------------------------- contexts
    def ctx(self, f: Func, args: tuple, via: Optional[tuple[Ctx, ast.AST]]) -> Ctx:
        key = (f, args)
        c = self.ctxs.get(key)
        if c is None:
            if self.perfunc[f] >= MAXCTX:
                key = (f, tuple(TOP for _ in args))
                c = self.ctxs.get(key)
            if c is None:
                c = Ctx(f, key[1])
                c.via = via
                self.ctxs[key] = c
                self.perfunc[f] += 1
                self.push(c)
        if via is not None:
            c.callers.add(via[0])
        return c

    def instantiate(self, cls: str, c: "Ctx", node: ast.AST) -> None:
        if cls in self.made:
            return
        self.made[cls] = (c, node)
        for k, fam in self.follow.items():
            if cls in fam:
                for x in list(self.waiting[k]):
                    self.push(x)

    def may_enter(self, g: Func, c: "Ctx") -> bool:
        k = g.cls.full if g.cls is not None else None
        if k not in self.follow or g.is_static or g.is_classmethod:
            return True
        if self.follow[k] & set(self.made):
            return True
        self.waiting[k].add(c)
        return False

    def push(self, c: Ctx) -> None:
        if c not in self.queued:
            self.queued.add(c)
            self.todo.append(c)

    def run(self, roots: Iterable[Func]) -> "Spec":
        for f in roots:
            self.ctx(f, tuple(TOP for _ in f.params), None)
        while self.todo:
            c = self.todo.pop(0)
            self.queued.discard(c)
            c.ran += 1
            self.runs += 1
            if c.ran > 60:
                if c.ret is not TOP:
                    c.ret = TOP
                    for x in c.callers:
                        self.push(x)
                if c.ran > 80:
                    continue
            self.execute(c)
        return self

    def execute(self, c: Ctx) -> None:
        dom = _Dom(self, c)
        env: dict[str, V] = {}
        for prm, v in zip(c.f.params, c.args):
            if v is not TOP:
                env[prm] = v
        for prm in c.f.params:
            self._set_free(c.f, prm, env.get(prm, TOP))
        o = Exec(dom).run(c.f.body, [freeze(env)])
        r = c.ret
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self.p.own_nodes(c.f)) if not isinstance(c.f.node, ast.Lambda) else False
        if is_gen:
            r = TOP
        else:
            for _node, st in o.ret:
                r = join(r, dict(st).get("<ret>", TOP))
            if o.fall:
                r = join(r, NONE)
        if r != c.ret:
            c.ret = r
            for x in list(c.callers):
                self.push(x)

    # ------------------------------------------------------------- shared cells
    def _set_free(self, f: Func, name: str, v: V) -> None:
        k = (f, name)
        old = self.free.get(k, BOT)
        new = join(old, v)
        if k not in self.free or new != old:
            self.free[k] = new
            for x in self.free_readers.get(k, ()):
                self.push(x)

    def set_attr(self, cls: Iterable[str], attr: str, v: V) -> None:
        for c in cls:
            k = (c, attr)
            old = self.attrs.get(k, BOT)
            new = join(old, v)
            if k not in self.attrs or new != old:
                self.attrs[k] = new
                for x in list(self.attr_readers.get(attr, ())):
                    self.push(x)

    def _stores(self) -> dict[str, Optional[set[str]]]:
        """attribute -> classes it is assigned on (None: on objects of unknown class)"""
        c = self.p.__dict__.get("_spec_storecls")
        if c is None:
            c = self.p.__dict__["_spec_storecls"] = {}
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        k = self.p.classes_of(m, n.value)
                        cur = c.setdefault(n.attr, set())
                        if cur is None:
                            continue
                        if k:
                            cur |= k
                        else:
                            c[n.attr] = None
        return c

    def get_attr(self, c: Ctx, classes: set[str], attr: str) -> V:
        if self.open:
            return TOP
        if attr not in self._stored or not classes:
            return self.class_default(classes, attr)
        self.attr_readers[attr].add(c)  # type: ignore
        out: V = BOT
        seen = False
        for k in classes:
            if k not in self.p.classes:
                return TOP
            fam = set(self.p.mro(k)) | self.p.subtypes(k)
            if fam & self.all_top_attrs:
                return TOP
            for x in fam:
                if x in self.p.classes and self.p.classes[x].node.decorator_list and "__init__" not in self.p.classes[x].methods and any(
                        isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == attr for n in self.p.classes[x].node.body):
                    return TOP  # a field of a data class: set by its constructor
            for x in fam:
                if (x, attr) in self.attrs:
                    seen = True
                    out = join(out, self.attrs[(x, attr)])
        d = self.class_default(classes, attr)
        sc = self._stores().get(attr)
        if sc is None or not sc & set().union(*[set(self.p.mro(k)) | self.p.subtypes(k) for k in classes]):
            return TOP
        if not seen:
            return d if self._has_default(classes, attr) else BOT
        if not self._has_default(classes, attr):
            return out
        return join(out, d)

    def _has_default(self, classes: set[str], attr: str) -> bool:
        for k in classes:
            for b in self.p.mro(k) if k in self.p.classes else []:
                if b in self.p.classes:
                    for n in self.p.classes[b].node.body:
                        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in n.targets) or (
                                isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == attr and n.value is not None):
                            return True
        return False

    def class_default(self, classes: set[str], attr: str) -> V:
        for k in classes:
            for b in self.p.mro(k) if k in self.p.classes else []:
                if b in self.p.classes:
                    for n in self.p.classes[b].node.body:
                        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in n.targets) or (
                                isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == attr and n.value is not None):
                            if isinstance(n.value, ast.Constant):
                                return const(n.value.value)
                            return TOP
        return TOP

    # ------------------------------------------------------------- explanation
    def chain(self, node: ast.AST) -> str:
        c = self.reached.get(node)
        names = []
        while c is not None and len(names) < 12:
            names.append(c.f.qual.split(".")[-1])
            c = c.via[0] if c.via else None
        return " <- ".join(names)

    def reached_functions(self) -> set[Func]:
        return {c.f for c in self.ctxs.values() if c.ran}


def freeze(env: dict[str, V]) -> frozenset:
    return frozenset((k, v) for k, v in env.items() if v is not TOP)


class _Dom(Domain):
    max_states = 48
    max_iter = 6

    def __init__(self, s: Spec, c: Ctx):
        self.s, self.c, self.f = s, c, c.f
        self.p = s.p
        self.mod: Module = c.f.module

    def may_raise(self, node: ast.AST) -> bool:
        return self.in_try(node) and super().may_raise(node)

    def in_try(self, node: ast.AST) -> bool:
        return True

    def join(self, states: set) -> set:
        envs = [dict(x) for x in states]
        keys = set(envs[0])
        for e in envs[1:]:
            keys &= set(e)
        out: dict[str, V] = {}
        for k in keys:
            v: V = BOT
            for e in envs:
                v = join(v, e[k])
            if v is not TOP:
                out[k] = v
        return {freeze(out)}

    # ---------------------------------------------------------------- statements
    def visit(self, node: ast.AST, state: Any) -> None:
        self.s.reached.setdefault(node, self.c)

    def stmt(self, node: ast.stmt, state: Any) -> Iterable[Any]:
        env = dict(state)
        ev = _Eval(self, env)
        if isinstance(node, ast.Return):
            v = ev.peek(node.value) if node.value is not None else NONE
            env["<ret>"] = v
            if v is TOP:
                env.pop("<ret>")
            return [freeze(env)] if v != BOT else []
        if isinstance(node, ast.Assign):
            v = ev.peek_store(node)
            if v == BOT:
                return []
            for t in node.targets:
                ev.assign(t, v, node.value)
        elif isinstance(node, ast.AnnAssign):
            if node.value is not None:
                v = ev.ev(node.value)
                if v == BOT:
                    return []
                ev.assign(node.target, v, node.value)
        elif isinstance(node, ast.AugAssign):
            if ev.peek(node.value) == EMPTY and isinstance(node.op, ast.Add):
                return [freeze(env)]
            ev.force(ev.last)
            if isinstance(node.target, ast.Name):
                ev.assign(node.target, TOP, None)
            else:
                ev.ev(_load(node.target))
                ev.assign(node.target, TOP, None)
        elif isinstance(node, ast.Expr):
            v = ev.ev(node.value)
            if v == BOT:
                return []
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in node.args.defaults + [x for x in node.args.kw_defaults if x is not None] + node.decorator_list:
                ev.ev(d)
            g = self.p.func_of_node.get(node)
            if g is not None:
                env[node.name] = frozenset([("fn", g)])
        elif isinstance(node, ast.ClassDef):
            for sub in node.body:
                g = self.p.func_of_node.get(sub)
                if g is not None:
                    self.s.ctx(g, tuple(TOP for _ in g.params), (self.c, node))
        elif isinstance(node, ast.Raise):
            if node.exc is not None:
                ev.ev(node.exc)
        elif isinstance(node, ast.Delete):
            for t in node.targets:
                if not isinstance(t, ast.Name):
                    ev.ev(_load(t))
        elif isinstance(node, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            pass
        else:
            for x in ast.iter_child_nodes(node):
                if isinstance(x, ast.expr):
                    ev.ev(x)
        return [freeze(env)]

    def expr(self, node: ast.expr, state: Any) -> Iterable[Any]:
        env = dict(state)
        ev = _Eval(self, env)
        v = ev.peek(node)
        ev.force(v)
        par = self.p.parent_of.get(node)
        if isinstance(par, (ast.For, ast.AsyncFor)) and par.iter is node and v != EMPTY and v != BOT and self.s.hook.nonempty(self.s, self.f, node, v):
            env["<z%d>" % id(par)] = const(True)  # until the body has been entered once
        return [freeze(env)] if v != BOT else []

    def atom(self, test: ast.expr, state: Any, truth: bool) -> Iterable[Any]:
        env = dict(state)
        ev = _Eval(self, env)
        v = ev.peek(test)
        if v == BOT or truth not in truths(v):
            return []
        self.refine(test, env, truth, ev)
        return [freeze(env)]

    def refine(self, test: ast.expr, env: dict, truth: bool, ev: "_Eval") -> None:
        if isinstance(test, ast.Name) and test.id in env and env[test.id] is not TOP:
            env[test.id] = frozenset(x for x in env[test.id] if truth in truths(frozenset([x])))
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, op, r = test.left, test.ops[0], test.comparators[0]
            if not isinstance(l, ast.Name) and isinstance(r, ast.Name):
                l, r = r, l
            if isinstance(l, ast.Name) and l.id in self.s.locals_of(self.f) and isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
                rv = _Eval(self, dict(env)).ev(r)
                if rv is not TOP and len(rv) == 1:
                    eq = isinstance(op, (ast.Eq, ast.Is)) == truth
                    cur = env.get(l.id, TOP)
                    if eq:
                        env[l.id] = rv
                    elif cur is not TOP:
                        env[l.id] = cur - rv

    def match_case(self, st: ast.Match, case: ast.match_case, state: Any) -> tuple[list[Any], list[Any]]:
        """(states in which the case is taken, states in which it is not)"""
        env = dict(state)
        ev = _Eval(self, env)
        pat = case.pattern
        pats = pat.patterns if isinstance(pat, ast.MatchOr) else [pat]
        if any(isinstance(x, ast.MatchAs) and x.pattern is None for x in pats):
            yes, no = True, False
            for x in pats:
                if isinstance(x, ast.MatchAs) and x.name:
                    ev.assign(ast.copy_location(ast.Name(id=x.name, ctx=ast.Store()), st.subject), TOP, None)
        else:
            sv = ev.ev(st.subject)
            yes = no = True
            if sv is not TOP and all(ev._known(x) for x in sv) and all(isinstance(x, (ast.MatchValue, ast.MatchSingleton)) for x in pats):
                vals: set = set()
                for x in pats:
                    v = ev.ev(x.value) if isinstance(x, ast.MatchValue) else const(x.value)  # type: ignore
                    if v is TOP or not all(ev._known(y) for y in v):
                        return [state], [state]
                    vals |= v
                yes = bool(sv & vals)
                no = bool(sv - vals)
        if case.guard is not None:
            no = True
            if yes and True not in truths(ev.ev(case.guard)):
                yes = False
        return ([freeze(env)] if yes else []), ([state] if no else [])

    def bind_loop(self, node: ast.For, state: Any) -> Iterable[Any]:
        env = dict(state)
        ev = _Eval(self, env)
        h = self.s.hook.loop(self.s, self.f, node, env)
        if h is not NotImplemented:
            if h == BOT:
                return []
            ev.assign(node.target, h, None)
            return [freeze(env)]
        v = ev.element(node.iter)
        if v == BOT:
            return []
        env.pop("<z%d>" % id(node), None)
        ev.assign(node.target, v, None)
        return [freeze(env)]

    def loop_exit(self, node: ast.AST, state: Any) -> Iterable[Any]:
        if not isinstance(node, (ast.For, ast.AsyncFor)):
            return [state]
        z = "<z%d>" % id(node)
        env = dict(state)
        if z in env:
            return []
        return [state]

    def bind_with(self, item: ast.withitem, state: Any) -> Iterable[Any]:
        env = dict(state)
        ev = _Eval(self, env)
        ev.force(ev.ev(item.context_expr))
        if item.optional_vars is not None:
            ev.assign(item.optional_vars, TOP, None)
        return [freeze(env)]

    def bind_handler(self, h: ast.ExceptHandler, state: Any) -> Iterable[Any]:
        env = dict(state)
        if h.name:
            env.pop(h.name, None)
        for x in h.body[:1]:
            self.s.reached.setdefault(h, self.c)
        return [freeze(env)]


def _load(t: ast.expr) -> ast.expr:
    return t


class _Eval:
    def __init__(self, d: _Dom, env: dict[str, V]):
        self.d, self.env = d, env
        self.s, self.c, self.f, self.p, self.mod = d.s, d.c, d.f, d.p, d.mod
        self.last: V = TOP

    def ev(self, n: Optional[ast.AST]) -> V:
        if n is None:
            return NONE
        self.s.reached.setdefault(n, self.c)
        h = self.s.hook.test(self.s, self.f, n, self.env)  # type: ignore
        if h is not NotImplemented:
            self.children(n)
            self.last = h
            return h
        m = getattr(self, "e_" + type(n).__name__, None)
        r = m(n) if m is not None else self.children(n)
        self.last = r
        return r

    def peek(self, n: Optional[ast.AST]) -> V:
        """the value of n, in a place where a collection is only looked at"""
        if isinstance(n, ast.Name) and ("empty",) in (self.env.get(n.id) or ()) and n.id in self.s.locals_of(self.f):
            self.s.reached.setdefault(n, self.c)
            return self.env[n.id]
        return self.ev(n)

    def peek_store(self, node: ast.Assign) -> V:
        """when a collection is stored in an attribute, the hook may look at it"""
        if isinstance(node.value, ast.Name) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute):
            v = self.peek(node.value)
            if v == EMPTY:
                self.s.hook.store(self.s, self.f, node.targets[0], v)
                self.ev(node.value)
                self.s.set_attr(self.p.classes_of(self.mod, node.targets[0].value), node.targets[0].attr, TOP)
                return BOT if False else frozenset([("stored",)])
            return v
        return self.ev(node.value)

    def element(self, it: ast.expr) -> V:
        """the value of an element of the collection"""
        if isinstance(it, (ast.List, ast.Tuple)) and it.elts:
            v: V = BOT
            for e in it.elts:
                v = join(v, self.ev(e)) if not isinstance(e, ast.Starred) else TOP
            return v
        v = self.peek(it)
        if v is not TOP:
            v = v - EMPTY
        if v == BOT:
            return BOT
        h = self.s.hook.element(self.s, self.f, it, v)
        if h is not NotImplemented:
            return h
        self.force(v)
        return TOP

    def children(self, n: ast.AST) -> V:
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.expr_context, ast.operator, ast.unaryop, ast.cmpop, ast.boolop)):
                continue
            if isinstance(x, ast.expr):
                self.force(self.ev(x))
            elif isinstance(x, (ast.keyword,)):
                self.force(self.ev(x.value))
        return TOP

    # the value leaves what is tracked: everything it may hold is evaluated
    def force(self, v: V) -> V:
        if v is TOP:
            return TOP
        for x in v:
            if isinstance(x, tuple) and not isinstance(x, K):
                if x[0] == "dict":
                    k = (x[1],)
                    if k not in self.s._forced:
                        self.s._forced.add(k)
                        e = self.home(x[2])
                        for val in x[1].values:
                            self.force(e.ev(val))
                elif x[0] == "fn":
                    self.s.ctx(x[1], tuple(TOP for _ in x[1].params), (self.c, x[1].node))
                elif x[0] == "bound":
                    g = x[1]
                    self.s.ctx(g, tuple(TOP for _ in g.params), (self.c, g.node))
        return TOP

    def home(self, f: Func) -> "_Eval":
        """an evaluator in the function f, whose local variables are unknown"""
        if f is self.f:
            return self
        d2 = _Dom.__new__(_Dom)
        d2.s, d2.c, d2.f, d2.p, d2.mod = self.s, self.c, f, self.p, f.module
        return _Eval(d2, {})

    def e_Constant(self, n: ast.Constant) -> V:
        try:
            return const(n.value)
        except TypeError:
            return TOP

    def e_Name(self, n: ast.Name) -> V:
        f: Optional[Func] = self.f
        if n.id in self.s.locals_of(self.f):
            if n.id in self.env:
                v = self.env[n.id]
                if v is not TOP and ("empty",) in v:
                    # the collection may be filled through another name
                    self.env.pop(n.id)
                    self.s._set_free(self.f, n.id, TOP)
                    return TOP
                return v
            v = self.global_value(n)
            return v
        f = self.f.parent
        while f is not None:
            if n.id in self.s.locals_of(f):
                k = (f, n.id)
                self.s.free_readers[k].add(self.c)
                return self.s.free.get(k, TOP)
            f = f.parent
        return self.global_value(n)

    def global_value(self, n: ast.Name) -> V:
        fs, ext = self.p.resolve_callable(self.mod, n)
        e = self.p.mnode(self.mod, n)
        full = getattr(e, "fullname", "") or ""
        if full in self.p.classes:
            return frozenset([("cls", full)])
        if fs and full in self.p.funcs:
            return frozenset([("fn", self.p.funcs[full])])
        # module level constant
        if full and "." in full:
            mn, _, nm = full.rpartition(".")
            m = self.p.modules.get(mn)
            if m is not None:
                vals = []
                for st in m.tree.body:
                    if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in st.targets):
                        vals.append(st.value)
                    elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == nm and st.value is not None:
                        vals.append(st.value)
                if len(vals) == 1:
                    k = (mn, nm)
                    if k not in self.s.globals:
                        self.s.globals[k] = TOP
                        fake = Func(qual=mn + ".<module>", name="<module>", module=m, cls=None, node=ast.Lambda(
                            args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Constant(None)))
                        d2 = _Dom.__new__(_Dom)
                        d2.s, d2.c, d2.f, d2.p, d2.mod = self.s, self.c, fake, self.p, m
                        self.s.globals[k] = _Eval(d2, {}).ev(vals[0])
                    return self.s.globals[k]
        return TOP

    def e_Attribute(self, n: ast.Attribute) -> V:
        base = self.ev(n.value)
        if base == BOT:
            return BOT
        h = self.s.hook.attr(self.s, self.f, n, base)
        if h is not NotImplemented:
            return h
        e = self.p.mnode(self.mod, n)
        full = getattr(e, "fullname", "") or ""
        if full in self.p.classes:
            return frozenset([("cls", full)])
        if full in self.p.funcs and not self.p.funcs[full].cls:
            return frozenset([("fn", self.p.funcs[full])])
        out: V = BOT
        if base is not TOP:
            for b in base:
                if isinstance(b, tuple) and not isinstance(b, K) and b[0] == "cls":
                    if self.s.is_enum(b[1]):
                        out = join(out, frozenset([("enum", b[1], n.attr)]))
                    else:
                        g = self.p.find_method(b[1], n.attr)
                        out = join(out, frozenset([("fn", g)]) if g is not None else TOP)
                elif isinstance(b, tuple) and not isinstance(b, K) and b[0] == "enum":
                    out = join(out, const(b[2]) if n.attr == "name" else TOP)
                elif isinstance(b, tuple) and not isinstance(b, K) and b[0] == "dict":
                    self.force(frozenset([b]))
                    out = TOP
                else:
                    out = TOP
            if out is not TOP:
                return out
        # module attribute (constant of another module)
        if full and "." in full and full.rpartition(".")[0] in self.p.modules:
            nm = ast.Name(id=n.attr, ctx=ast.Load())
            return TOP if full.rpartition(".")[0] == self.mod.name else self._foreign(full)
        classes = self.p.classes_of(self.mod, n.value)
        # property or bound method
        tg: list[Func] = []
        for k in sorted(classes):
            for g in self.p.method_targets(k, n.attr):
                if g not in tg:
                    tg.append(g)
        if tg:
            props = [g for g in tg if g.is_property]
            if props:
                out = BOT
                for g in props:
                    out = join(out, self.enter(g, (TOP,) * len(g.params), n))
                return out
            par = self.p.parent_of.get(n)
            if not (isinstance(par, ast.Call) and par.func is n):
                for g in tg:
                    self.s.ctx(g, tuple(TOP for _ in g.params), (self.c, n))
            return TOP
        return self.s.get_attr(self.c, classes, n.attr)

    def _foreign(self, full: str) -> V:
        mn, _, nm = full.rpartition(".")
        m = self.p.modules[mn]
        k = (mn, nm)
        if k not in self.s.globals:
            self.s.globals[k] = TOP
            for st in m.tree.body:
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in st.targets):
                    fake = Func(qual=mn + ".<module>", name="<module>", module=m, cls=None, node=ast.Lambda(
                        args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Constant(None)))
                    d2 = _Dom.__new__(_Dom)
                    d2.s, d2.c, d2.f, d2.p, d2.mod = self.s, self.c, fake, self.p, m
                    self.s.globals[k] = _Eval(d2, {}).ev(st.value)
        return self.s.globals[k]

    def enter(self, g: Func, args: tuple, node: ast.AST) -> V:
        if g.is_abstract:
            return BOT
        x = self.s.ctx(g, args, (self.c, node))
        return x.ret

    LOOKS = ("list", "tuple", "set", "frozenset", "sorted", "reversed", "len", "bool", "any", "all", "filter", "map", "enumerate", "iter", "sum", "zip", "str", "dict")

    def looks(self, n: ast.Call) -> bool:
        return isinstance(n.func, ast.Name) and n.func.id in self.LOOKS

    def e_List(self, n: Any) -> V:
        if not n.elts:
            return EMPTY
        return self.children(n)

    e_Tuple = e_List

    def collections(self, n: ast.Call, args: dict) -> Any:
        """builtins which look at a collection"""
        name = n.func.id  # type: ignore
        if name in ("list", "tuple", "set", "frozenset", "dict") and not n.args and not n.keywords:
            return EMPTY
        if name in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "enumerate") and 0 in args:
            return args[0] if args[0] == EMPTY or (sym(args[0]) and name in ("list", "tuple", "iter", "sorted", "reversed")) else NotImplemented
        if name == "len" and 0 in args:
            if args[0] == EMPTY:
                return const(0)
            if self.s.hook.nonempty(self.s, self.f, n.args[0], args[0]) or args[0] is not TOP and truths(args[0]) == {True}:
                return S("len", True)
        if name in ("filter", "map") and 1 in args and len(n.args) == 2:
            if args[1] == EMPTY:
                return EMPTY
            el = self.s.hook.element(self.s, self.f, n.args[1], args[1] - EMPTY if args[1] is not TOP else TOP)
            if el is NotImplemented:
                el = TOP
            if name == "filter" and args[0] is not TOP:
                v: V = BOT
                for x in args[0]:
                    if isinstance(x, tuple) and not isinstance(x, K) and x[0] == "fn":
                        g = x[1]
                        v = join(v, self.enter(g, (TOP,) * (len(g.params) - 1) + (el,) if len(g.params) == 1 else tuple(TOP for _ in g.params), n))
                    else:
                        v = TOP
                if v == BOT:
                    return BOT
                if truths(v) == {False}:
                    return EMPTY
                return args[1]
            return NotImplemented
        if name in ("any", "all") and 0 in args:
            v = args[0]
            if v == EMPTY:
                return const(name == "all")
            if v is not TOP and len(v) == 1:
                x = next(iter(v))
                if isinstance(x, tuple) and not isinstance(x, K) and x[0] == "comp":
                    _, els, ne = x
                    if name == "any":
                        if els == frozenset([False]):
                            return FALSE
                        if els == frozenset([True]) and ne:
                            return TRUE
                    else:
                        if els == frozenset([True]):
                            return TRUE
                        if els == frozenset([False]) and ne:
                            return FALSE
            return BOOL
        return NotImplemented

    def e_Call(self, n: ast.Call) -> V:
        fv: V = TOP
        look = self.looks(n)
        recv: V = TOP
        if isinstance(n.func, ast.Attribute):
            fv = self.ev(n.func)
            if fv == BOT:
                return BOT
        elif isinstance(n.func, ast.Name):
            fv = self.ev(n.func)
        else:
            fv = self.ev(n.func)
        args: dict[Any, V] = {}
        star = False
        for i, a in enumerate(n.args):
            if isinstance(a, ast.Starred):
                self.force(self.ev(a.value))
                star = True
            else:
                args[i] = self.peek(a) if look else self.comp_args(n, a)
                if args[i] == BOT:
                    return BOT
        for k in n.keywords:
            v = self.ev(k.value)
            if v == BOT:
                return BOT
            if k.arg is None:
                self.force(v)
                star = True
            else:
                args[k.arg] = v
        targets, ext = self.p.callees(self.mod, n)
        if not targets and fv is not TOP:
            for x in fv:
                if isinstance(x, tuple) and not isinstance(x, K) and x[0] == "fn":
                    targets = targets + [x[1]]
        h = self.s.hook.call(self.s, self.f, n, targets, ext, args)
        if h is not NotImplemented:
            return h
        known = self.s.hook.result(self.s, self.f, n, fv, args)
        if look and not targets:
            h = self.collections(n, args)
            if h is not NotImplemented:
                return h
        if isinstance(n.func, ast.Name) and n.func.id == "cast" and 1 in args:
            return args[1]
        if not targets:
            r = self.builtin(n, ext, args)
            if r is not NotImplemented:
                return r
            for v in args.values():
                self.force(v)
            self.force(fv)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("format", "join", "replace"):
                for v in args.values():
                    self.s.hook.emit(self.s, self.f, n, v)
            return known if known is not NotImplemented else TOP
        ctor = self.p.constructed_class(self.mod, n)
        if ctor in self.s.follow:
            if not self.s.hook.construct(self.s, self.f, n, ctor, args):
                for v in args.values():
                    self.force(v)
                return TOP
            self.s.instantiate(ctor, self.c, n)
        out: V = BOT
        for g in targets:
            if g.is_abstract or not self.s.may_enter(g, self.c):
                continue
            vals: list[V] = []
            ps = list(g.params)
            a = g.node.args  # type: ignore
            implicit = 0
            if g.cls is not None and not g.is_static and ps:
                direct = isinstance(n.func, ast.Attribute) and fv is not TOP and any(
                    isinstance(x, tuple) and not isinstance(x, K) and x[0] == "fn" for x in fv) and not ctor
                is_cls_access = isinstance(n.func, ast.Attribute) and bool(self.p.classes_of(self.mod, n.func.value)) is False
                if ctor or not (direct and not g.is_classmethod and is_cls_access):
                    implicit = 1
            pos = [x.arg for x in a.posonlyargs + a.args]
            names = pos[implicit:]
            bound: dict[str, V] = {}
            for i in range(len(n.args)):
                if i in args:
                    if i < len(names) and not star:
                        bound[names[i]] = args[i]
                    else:
                        self.force(args[i])
            for k, v in args.items():
                if isinstance(k, str):
                    if k in ps:
                        bound[k] = v
                    else:
                        self.force(v)
            defaults: dict[str, ast.expr] = {}
            for nm, dv in zip(pos[len(pos) - len(a.defaults):], a.defaults):
                defaults[nm] = dv
            for kw, dv in zip(a.kwonlyargs, a.kw_defaults):
                if dv is not None:
                    defaults[kw.arg] = dv
            for prm in ps:
                if prm in bound:
                    vals.append(bound[prm])
                elif prm in defaults and not star:
                    dv = defaults[prm]
                    vals.append(const(dv.value) if isinstance(dv, ast.Constant) else TOP)
                else:
                    vals.append(TOP)
            out = join(out, self.enter(g, tuple(vals), n))
        if known is not NotImplemented:
            return out if targets and (out == EMPTY or out == BOT) else known
        if all(g.is_abstract for g in targets):
            return TOP
        if not any(not g.is_abstract and self.s.may_enter(g, self.c) for g in targets):
            return BOT
        if ctor or any(g.name in ("__init__", "__post_init__") for g in targets) and not isinstance(n.func, ast.Attribute):
            return TOP if out != BOT or True else BOT
        return out

    def builtin(self, n: ast.Call, ext: str, args: dict) -> Any:
        name = ext.split(".")[-1] if ext else ""
        if ext in ("bool", "builtins.bool") and 0 in args:
            return const(*truths(args[0])) if truths(args[0]) else BOT
        if ext in ("str", "builtins.str") and 0 in args:
            v = args[0]
            if v is not TOP and all(isinstance(x, K) and not isinstance(x.v, Sym) for x in v):
                return const(*[str(x.v) for x in v])
            return NotImplemented
        if ext in ("isinstance", "builtins.isinstance"):
            return BOOL
        if isinstance(n.func, ast.Attribute):
            b = self.ev(n.func.value)
            if b is not TOP and b and all(isinstance(x, tuple) and not isinstance(x, K) and x[0] == "dict" for x in b) and n.func.attr == "get" and 0 in args:
                return self.lookup(b, args[0], args.get(1, NONE))
            if b is not TOP and b and all(isinstance(x, K) and isinstance(x.v, str) and not isinstance(x.v, Sym) for x in b):
                if n.func.attr in ("lower", "upper", "strip", "lstrip", "rstrip", "capitalize", "title") and not args:
                    return const(*[getattr(x.v, n.func.attr)() for x in b])
                if n.func.attr in ("startswith", "endswith") and 0 in args and args[0] is not TOP and all(isinstance(x, K) and isinstance(x.v, str) for x in args[0]):
                    return const(*[getattr(x.v, n.func.attr)(y.v) for x in b for y in args[0]])
        return NotImplemented

    def lookup(self, b: frozenset, key: V, default: Optional[V]) -> V:
        out: V = BOT
        if key is TOP or any(not self._known(k) for k in key):
            return self.force(b)
        for d in b:
            e = self.home(d[2])
            for k in key:
                found = False
                for kn, vn in zip(d[1].keys, d[1].values):
                    kv = e.ev(kn) if kn is not None else TOP
                    if kv is TOP or any(not self._known(x) for x in kv):
                        return self.force(b)
                    if k in kv:
                        found = True
                        out = join(out, e.ev(vn))
                if not found and default is not None:
                    out = join(out, default)
        return out

    def _known(self, x: Any) -> bool:
        return isinstance(x, K) and not isinstance(x.v, Sym) or isinstance(x, tuple) and not isinstance(x, K) and x[0] in ("enum", "cls")

    def e_Dict(self, n: ast.Dict) -> V:
        if n.keys and all(k is not None for k in n.keys):
            ks = [self.ev(k) for k in n.keys]
            if all(k is not TOP and len(k) == 1 and self._known(next(iter(k))) for k in ks):
                return frozenset([("dict", n, self.f)])
        return self.children(n)

    def e_Subscript(self, n: ast.Subscript) -> V:
        b = self.ev(n.value)
        if b == BOT:
            return BOT
        k = self.ev(n.slice)
        if b is not TOP and all(isinstance(x, tuple) and not isinstance(x, K) and x[0] == "dict" for x in b):
            return self.lookup(b, k, None)
        if b is not TOP and len(b) == 1 and isinstance(next(iter(b)), tuple) and next(iter(b))[0] == "seq" and k is not TOP and len(k) == 1:
            return TOP
        h = self.s.hook.result(self.s, self.f, n, b, {0: k})
        if h is not NotImplemented:
            return h
        self.force(b)
        self.force(k)
        return TOP

    def e_IfExp(self, n: ast.IfExp) -> V:
        t = truths(self.cond(n.test))
        out: V = BOT
        if True in t:
            out = join(out, self.branch(n.test, True, n.body))
        if False in t:
            out = join(out, self.branch(n.test, False, n.orelse))
        return out

    def branch(self, test: ast.expr, truth: bool, e: ast.expr) -> V:
        saved = dict(self.env)
        self.d.refine(test, self.env, truth, self)
        r = self.ev(e)
        self.env.clear()
        self.env.update(saved)
        return r

    def cond(self, test: ast.expr) -> V:
        v = self.peek(test)
        return v

    def e_BoolOp(self, n: ast.BoolOp) -> V:
        conj = isinstance(n.op, ast.And)
        out: V = BOT
        for i, x in enumerate(n.values):
            v = self.peek(x)
            if i == len(n.values) - 1:
                out = join(out, v)
                break
            t = truths(v)
            if v == BOT:
                return out
            stop, go = (False, True) if conj else (True, False)
            if stop in t:
                if v is TOP:
                    out = TOP
                else:
                    out = join(out, frozenset(y for y in v if stop in truths(frozenset([y]))))
            if go not in t:
                break
        return out

    def e_UnaryOp(self, n: ast.UnaryOp) -> V:
        v = self.peek(n.operand)
        if isinstance(n.op, ast.Not):
            if v == BOT:
                return BOT
            return const(*[not t for t in truths(v)])
        return TOP

    def e_Compare(self, n: ast.Compare) -> V:
        l = self.peek(n.left)
        rs = [self.peek(c) for c in n.comparators]
        if isinstance(n.ops[0], (ast.In, ast.NotIn)) and rs[0] == EMPTY:
            return const(isinstance(n.ops[0], ast.NotIn))
        if l == BOT or any(r == BOT for r in rs):
            return BOT
        if len(rs) != 1:
            return BOOL
        r, op = rs[0], n.ops[0]
        h = self.s.hook.compare(self.s, self.f, op, l, r)
        if h is not NotImplemented:
            return h
        if isinstance(op, (ast.Gt, ast.GtE, ast.Lt, ast.LtE, ast.Eq, ast.NotEq)):
            a, b, o = l, r, op
            if sym(b) == "len":
                a, b = r, l
                o = {ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Lt: ast.Gt, ast.LtE: ast.GtE}.get(type(op), type(op))()
            if b is not TOP and len(b) == 1 and isinstance(next(iter(b)), K) and isinstance(next(iter(b)).v, int):
                c = next(iter(b)).v
                if sym(a) == "len":
                    if isinstance(o, ast.Gt) and c <= 0 or isinstance(o, ast.GtE) and c <= 1 or isinstance(o, ast.NotEq) and c <= 0:
                        return TRUE
                    if isinstance(o, ast.Lt) and c <= 1 or isinstance(o, ast.LtE) and c <= 0 or isinstance(o, ast.Eq) and c <= 0:
                        return FALSE
                if a is not TOP and all(isinstance(x, K) and isinstance(x.v, int) for x in a):
                    import operator as _o
                    fn = {ast.Gt: _o.gt, ast.GtE: _o.ge, ast.Lt: _o.lt, ast.LtE: _o.le, ast.Eq: _o.eq, ast.NotEq: _o.ne}[type(o)]
                    return const(*{fn(x.v, c) for x in a})
        if isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
            if l is TOP or r is TOP:
                return BOOL
            out = set()
            neg = isinstance(op, (ast.NotEq, ast.IsNot))
            for a in l:
                for b in r:
                    if self._known(a) and self._known(b):
                        out.add((a == b) != neg)
                    elif isinstance(a, K) and isinstance(b, K) and isinstance(a.v, Sym) and a == b:
                        out.add(not neg)
                    else:
                        out |= {True, False}
            return const(*out)
        if isinstance(op, (ast.In, ast.NotIn)):
            c = n.comparators[0]
            neg = isinstance(op, ast.NotIn)
            if isinstance(c, (ast.List, ast.Tuple, ast.Set)) and l is not TOP and all(self._known(a) for a in l):
                vals = [self.ev(e) for e in c.elts]
                if all(v is not TOP and all(self._known(x) for x in v) for v in vals):
                    pool = set().union(*vals) if vals else set()
                    return const(*{(a in pool) != neg for a in l})
            if l is not TOP and r is not TOP and all(isinstance(x, K) and isinstance(x.v, str) and not isinstance(x.v, Sym) for x in l | r):
                return const(*{(a.v in b.v) != neg for a in l for b in r})
            self.force(r)
            return BOOL
        return BOOL

    def e_NamedExpr(self, n: ast.NamedExpr) -> V:
        v = self.ev(n.value)
        self.assign(n.target, v, n.value)
        return v

    def e_Lambda(self, n: ast.Lambda) -> V:
        g = self.p.func_of_node.get(n)
        if g is not None:
            return frozenset([("fn", g)])
        return TOP

    def e_JoinedStr(self, n: ast.JoinedStr) -> V:
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                w = self.ev(x.value)
                self.s.hook.emit(self.s, self.f, x, w)
                self.force(w)
                if x.format_spec is not None:
                    self.ev(x.format_spec)
            else:
                self.ev(x)
        return TOP

    def e_BinOp(self, n: ast.BinOp) -> V:
        l, r = self.peek(n.left), self.peek(n.right)
        if l == BOT or r == BOT:
            return BOT
        if isinstance(n.op, ast.Add):
            if l == EMPTY and r == EMPTY:
                return EMPTY
            self.s.hook.emit(self.s, self.f, n, l)
            self.s.hook.emit(self.s, self.f, n, r)
        if isinstance(n.op, ast.Add) and l is not TOP and r is not TOP and all(isinstance(x, K) and isinstance(x.v, str) and not isinstance(x.v, Sym) for x in l | r):
            out = const(*[a.v + b.v for a in l for b in r])
            return out if len(out) <= MAXSET else TOP
        self.force(l)
        self.force(r)
        return TOP

    def comp_args(self, n: ast.Call, a: ast.expr) -> V:
        v = self.ev(a)
        if v is not TOP and any(isinstance(x, tuple) and not isinstance(x, K) and x[0] == "comp" for x in v):
            return TOP
        return v

    def _comp(self, n: Any, elts: list[ast.expr]) -> V:
        """an empty collection, what is known of the elements when they are only tested (any, all), or an unchanged collection"""
        saved = dict(self.env)
        alive, nonempty, filtered = True, True, False
        src: V = TOP
        for g in n.generators:
            v = self.element(g.iter)
            if v == BOT:
                alive = False
                break
            w = self.peek(g.iter)
            src = w if len(n.generators) == 1 and sym(w) else TOP
            nonempty = nonempty and (isinstance(g.iter, (ast.List, ast.Tuple)) or self.s.hook.nonempty(self.s, self.f, g.iter, w))
            self.assign(g.target, v, None)
            for c in g.ifs:
                t = truths(self.cond(c))
                if True not in t:
                    alive = False
                    break
                if False in t:
                    nonempty = False
                filtered = True
                self.d.refine(c, self.env, True, self)
            if not alive:
                break
        out: V = EMPTY
        if alive:
            vals = [self.ev(e) for e in elts]
            out = TOP
            if any(v == BOT for v in vals):
                out = BOT if nonempty else EMPTY
            elif len(vals) == 1:
                same = isinstance(elts[0], ast.Name) and isinstance(n.generators[0].target, ast.Name) and elts[0].id == n.generators[0].target.id
                if src is not TOP and same:
                    out = src
                else:
                    t = truths(vals[0])
                    par = self.p.parent_of.get(n)
                    if isinstance(par, ast.Call) and par.args and par.args[0] is n and isinstance(par.func, ast.Name) and par.func.id in ("any", "all") and t:
                        out = frozenset([("comp", frozenset(t), nonempty)])
            if out is TOP:
                for v in vals:
                    self.force(v)
        for k in [k for k in self.env]:
            if k not in saved:
                self.env.pop(k)
        # a collection which has been read under its name while evaluating is no longer followed
        for k, v in saved.items():
            if v == EMPTY and k not in self.env:
                continue
            self.env[k] = v
        return out

    def e_ListComp(self, n: ast.ListComp) -> V:
        return self._comp(n, [n.elt])

    e_SetComp = e_ListComp  # type: ignore
    e_GeneratorExp = e_ListComp  # type: ignore

    def e_DictComp(self, n: ast.DictComp) -> V:
        return self._comp(n, [n.key, n.value])

    # ---------------------------------------------------------------- assignments
    def setters(self, classes: Iterable[str], t: ast.Attribute) -> None:
        table = self.p.__dict__.get("_spec_setters")
        if table is None:
            table = self.p.__dict__["_spec_setters"] = {}
            for k, g in self.p.funcs.items():
                if k.endswith("@setter") and g.cls is not None:
                    table.setdefault(g.name, []).append(g)
        if t.attr not in table:
            return
        fam: set[str] = set()
        for k in classes:
            fam |= set(self.p.mro(k)) | self.p.subtypes(k) if k in self.p.classes else set()
        for g in table[t.attr]:
            if not classes or g.cls.full in fam:
                self.s.ctx(g, tuple(TOP for _ in g.params), (self.c, t))

    def assign(self, t: ast.AST, v: V, value: Optional[ast.AST]) -> None:
        self.s.reached.setdefault(t, self.c)
        if isinstance(t, ast.Name):
            if v is not TOP and ("empty",) in v and t.id in self.s.captured(self.f):
                v = TOP
            if v is TOP:
                self.env.pop(t.id, None)
            else:
                self.env[t.id] = v
            self.s._set_free(self.f, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value)
            if v != frozenset([("stored",)]):
                self.s.hook.store(self.s, self.f, t, v)
            cl = self.p.classes_of(self.mod, t.value)
            if v is not TOP and any(isinstance(x, tuple) and not isinstance(x, K) and x[0] in ("fn", "dict", "empty", "comp", "stored") or isinstance(x, K) and isinstance(x.v, Sym) for x in v):
                self.force(v)
                v = TOP
            self.s.set_attr(cl, t.attr, v)
            self.setters(cl, t)
        elif isinstance(t, (ast.Tuple, ast.List)) and v is not TOP and len(v) == 1 and isinstance(next(iter(v)), tuple) and next(iter(v))[0] == "tuple" and len(next(iter(v))[1]) == len(t.elts):
            for a, b in zip(t.elts, next(iter(v))[1]):
                self.assign(a, b, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.force(v)
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in value.elts + t.elts):
                vs = [self.ev(x) for x in value.elts]
                for a, b in zip(t.elts, vs):
                    self.assign(a, b, None)
            else:
                for a in t.elts:
                    self.assign(a, TOP, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, TOP, None)
        elif isinstance(t, ast.Subscript):
            self.ev(t.value)
            self.ev(t.slice)
            self.force(v)
