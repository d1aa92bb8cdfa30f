"""Interprocedural taint with implicit flows, for values (and orders) which differ from one run to the next.

A label is (kind, what, where): kind "value" (clock, environment, address...) or "order" (the order of a set, of a directory
listing, of concurrent results). Flow-sensitive within a function (branches joined, loops iterated), with summaries:
 ret          labels of the returned value (symbolic ("param", name) labels included)
 param_out    parameters whose content receives labels
 attr_out     attributes written with labels
Attributes form a global store indexed by class and name. The order label is dropped by order-insensitive consumers."""
from __future__ import annotations

import ast
from typing import Callable, Iterable, Optional

from vlib.project import Func, Module, Project, dotted, type_args

L = frozenset
NONE: frozenset = frozenset()

ORDER_FREE_CALLS = {"len", "any", "all", "set", "frozenset", "sum", "bool", "isinstance", "collections.Counter", "hash", "id", "type"}
SEQ_METHODS = {"append", "extend", "insert", "appendleft", "write", "writelines", "push"}
MUT_METHODS = SEQ_METHODS | {"add", "update", "setdefault", "discard", "remove", "clear", "pop", "sort", "reverse"}
LOGGING = ("logging.", "warnings.")


def is_order(l: tuple) -> bool:
    return l[0] == "order"


def is_sym(l: tuple) -> bool:
    """depends on a parameter: its value, its elements, or its order"""
    return l[0] in ("param", "elem") or l[0] == "order" and l[1].startswith("@")


def elems(v: Iterable) -> frozenset:
    return L(("elem", l[1], "") if l[0] == "param" else l for l in v if not is_order(l))


class Summary:
    def __init__(self) -> None:
        self.ret: frozenset = NONE
        self.param_out: dict[str, frozenset] = {}
        self.attr_out: dict[tuple, frozenset] = {}
        self.seq_params: set[str] = set()  # parameters on which order-sensitive modifications are made
        self.seq_attrs: set[tuple] = set()

    def key(self):
        return (self.ret, tuple(sorted((k, v) for k, v in self.param_out.items())), tuple(sorted((str(k), v) for k, v in self.attr_out.items())),
                frozenset(self.seq_params), frozenset(self.seq_attrs))


class Taint:
    def __init__(self, p: Project, source: Callable[[Func, ast.AST], frozenset], unordered: Callable[[Func, ast.AST], bool], passes: int = 8):
        self.p, self.source, self.unordered = p, source, unordered
        self.sum: dict[Func, Summary] = {}
        self.heap: dict[tuple, frozenset] = {}  # (class, attr) -> labels
        self.by_attr: dict[str, set[tuple]] = {}
        self.funcs = list(p.all_funcs())
        self.n_sources = 0
        self.changed = True
        for f in self.funcs:
            self.sum[f] = Summary()
        todo = list(self.funcs)
        for i in range(passes):
            self.changed = False
            for f in todo:
                try:
                    s = Run(self, f).run()
                except RecursionError:
                    continue
                if s.key() != self.sum[f].key():
                    self.sum[f] = s
                    self.changed = True
            if not self.changed:
                break
        self.converged = not self.changed

    # heap
    def put(self, key: tuple, labels: frozenset) -> None:
        labels = L(l for l in labels if not is_sym(l))
        if not labels:
            return
        old = self.heap.get(key, NONE)
        if labels - old:
            self.heap[key] = old | labels
            self.by_attr.setdefault(key[1], set()).add(key)
            self.changed = True

    def get(self, classes: set[str], attr: str) -> frozenset:
        out = NONE
        for k in self.by_attr.get(attr, ()):
            if not classes or not k[0]:
                out |= self.heap[k]
                continue
            for c in classes:
                if k[0] == c or k[0] in self.p.mro(c) or c in self.p.mro(k[0]):
                    out |= self.heap[k]
                    break
        return out


class Run:
    def __init__(self, t: Taint, f: Func):
        self.t, self.p, self.f = t, t.p, f
        self.s = Summary()
        self.alias: dict[str, ast.AST] = {}  # local -> attribute expression it was taken from

    def run(self) -> Summary:
        env: dict[str, frozenset] = {}
        for prm in self.f.params:
            env[prm] = L([("param", prm, "")])
        if isinstance(self.f.node, ast.Lambda):
            self.s.ret |= self.ev(self.f.node.body, env)
            return self.s
        self.block(self.f.body, env, NONE)
        return self.s

    # ------------------------------------------------------------- statements
    def join(self, a: Optional[dict], b: Optional[dict]) -> Optional[dict]:
        if a is None:
            return b
        if b is None:
            return a
        return {k: a.get(k, NONE) | b.get(k, NONE) for k in set(a) | set(b)}

    def block(self, body: list, env: Optional[dict], ctl: frozenset) -> Optional[dict]:
        for st in body:
            if env is None:
                return None
            env = self.stmt(st, env, ctl)
        return env

    def bind(self, t: ast.AST, v: frozenset, env: dict, ctl: frozenset) -> None:
        v = v | ctl
        if isinstance(t, ast.Name):
            env[t.id] = v
            self.alias.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.bind(e, v, env, NONE)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env, NONE)
        elif isinstance(t, ast.Attribute):
            self.write_attr(t, v)
        elif isinstance(t, ast.Subscript):
            # an element of a container
            self.mutate(t.value, v, env)

    def write_attr(self, t: ast.Attribute, v: frozenset) -> None:
        for c in self.p.classes_of(self.f.module, t.value) or {""}:
            self.t.put((c, t.attr), v)
            old = self.s.attr_out.get((c, t.attr), NONE)
            sym = L(l for l in v if is_sym(l))
            if sym:
                self.s.attr_out[(c, t.attr)] = old | sym

    def mutate(self, recv: ast.AST, v: frozenset, env: dict, seq: bool = False) -> None:
        """labels v enter the content of recv"""
        while isinstance(recv, ast.Subscript):
            recv = recv.value
        if isinstance(recv, ast.Name):
            if v:
                env[recv.id] = env.get(recv.id, NONE) | v
            if recv.id in self.f.params:
                self.s.param_out[recv.id] = self.s.param_out.get(recv.id, NONE) | L(l for l in v if l != ("param", recv.id, ""))
                if seq:
                    self.s.seq_params.add(recv.id)
            a = self.alias.get(recv.id)
            if isinstance(a, ast.Attribute):
                self.mutate(a, v, env, seq)
        elif isinstance(recv, ast.Attribute):
            self.write_attr(recv, v)
            if seq:
                for c in self.p.classes_of(self.f.module, recv.value) or {""}:
                    self.s.seq_attrs.add((c, recv.attr))
        elif isinstance(recv, ast.Call) and isinstance(recv.func, ast.Attribute):
            self.mutate(recv.func.value, v, env, seq)

    def stmt(self, st: ast.stmt, env: dict, ctl: frozenset) -> Optional[dict]:
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                env = dict(env)
                env[st.name] = NONE
            return env
        if isinstance(st, ast.Return):
            if st.value is not None:
                v = self.ev(st.value, env, ctl)
                if not (isinstance(st.value, ast.Constant) and all(is_order(l) for l in ctl)):
                    v |= ctl
                self.s.ret |= v
            return None
        if isinstance(st, ast.Expr):
            v = self.ev(st.value, env, ctl)
            if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
                self.s.ret |= v | ctl
            return env
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            if st.value is None:
                return env
            env = dict(env)
            v = self.ev(st.value, env, ctl)
            vctl = ctl
            if isinstance(st.value, ast.Constant):
                vctl = L(l for l in ctl if not is_order(l))
            for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                self.bind(t, v, env, vctl)
                if isinstance(t, ast.Name) and isinstance(st.value, ast.Attribute):
                    self.alias[t.id] = st.value
            return env
        if isinstance(st, ast.AugAssign):
            env = dict(env)
            v = self.ev(st.value, env, ctl)
            if isinstance(st.target, ast.Name):
                c = ctl
                if isinstance(st.op, (ast.Add, ast.BitOr)) and self._numeric_or_set(st.target):
                    c = L(l for l in ctl if not is_order(l))
                env[st.target.id] = env.get(st.target.id, NONE) | v | c
                self.mutate(st.target, NONE, env, True)
            else:
                c = ctl
                if self._numeric_or_set(st.target):
                    c = L(l for l in ctl if not is_order(l))
                self.mutate(st.target, v | c, env, True)
            return env
        if isinstance(st, ast.If):
            c = self.ev(st.test, env, ctl)
            c = L(l for l in c if l[0] != "param")
            a = self.block(st.body, dict(env), ctl | c)
            b = self.block(st.orelse, dict(env), ctl | c)
            return self.join(a, b)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter, env, ctl)
            un = self.t.unordered(self.f, st.iter)
            order: frozenset = L(l for l in it if is_order(l))
            if un:
                order |= L([("order", f"the order of `{ast.unparse(st.iter)[:50]}`", self.f.loc(st.iter))])
            elif isinstance(st.iter, ast.Name) and st.iter.id in self.f.params and ("param", st.iter.id, "") in it:
                order |= L([("order", "@" + st.iter.id, "")])
            val = elems(it)
            outer = set(env)
            cur: Optional[dict] = dict(env)
            for _ in range(2):
                e2 = dict(cur)  # type: ignore
                self.bind(st.target, val, e2, NONE)
                before = dict(e2)
                e3 = self.block_in_loop(st.body, e2, ctl, order, outer)
                cur = self.join(cur, e3 if e3 is not None else before)
                cur = self.join(cur, self._breaks.pop(id(st), None) if hasattr(self, "_breaks") else None)
            r = self.block(st.orelse, dict(cur), ctl) if st.orelse else cur  # type: ignore
            return r if r is not None else cur
        if isinstance(st, ast.While):
            cur = dict(env)
            for _ in range(2):
                c = L(l for l in self.ev(st.test, cur, ctl) if l[0] != "param")
                e3 = self.block(st.body, dict(cur), ctl | c)
                cur = self.join(cur, e3) or cur
            return cur
        if isinstance(st, ast.Try):
            a = self.block(st.body, dict(env), ctl)
            base = self.join(dict(env), a) or dict(env)
            outs = self.block(st.orelse, a, ctl) if a is not None else None
            for h in st.handlers:
                e = dict(base)
                if h.name:
                    e[h.name] = NONE
                outs = self.join(outs, self.block(h.body, e, ctl))
            if st.finalbody:
                outs = self.block(st.finalbody, outs if outs is not None else base, ctl)
            return outs
        if isinstance(st, (ast.With, ast.AsyncWith)):
            env = dict(env)
            for i in st.items:
                v = self.ev(i.context_expr, env, ctl)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env, ctl)
            return self.block(st.body, env, ctl)
        if isinstance(st, ast.Match):
            c = L(l for l in self.ev(st.subject, env, ctl) if l[0] != "param")
            out: Optional[dict] = dict(env)
            for k in st.cases:
                out = self.join(out, self.block(k.body, dict(env), ctl | c))
            return out
        if isinstance(st, (ast.Raise, ast.Assert)):
            return None if isinstance(st, ast.Raise) else env
        if isinstance(st, (ast.Break, ast.Continue)):
            return env
        if isinstance(st, ast.Delete):
            return env
        return env

    _outer: tuple = ()

    def block_in_loop(self, body: list, env: dict, ctl: frozenset, order: frozenset, outer: set[str]) -> Optional[dict]:
        if not order:
            return self.block(body, env, ctl)
        saved = self._outer
        self._outer = saved + ((order, outer),)
        try:
            before = dict(env)
            e = self.block(body, env, ctl)
            r = e if e is not None else before
            # last (or first) element wins: a variable of the outside assigned in the body
            assigned: set[str] = set()
            for st in body:
                for n in ast.walk(st):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            for x in ast.walk(t):
                                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not isinstance(n.value, ast.Constant):
                                    if not self._accumulates_set(x.id, n.value):
                                        assigned.add(x.id)
                    elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                        if not self._numeric_or_set(n.target):
                            assigned.add(n.target.id)
                    elif isinstance(n, (ast.AugAssign, ast.Assign)):
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            if isinstance(t, ast.Attribute) and not (isinstance(n.value, ast.Constant)) and not self._numeric_or_set(t) and not self._of_element(t, body):
                                self.write_attr(t, order)
                            if isinstance(t, ast.Subscript) and self._outside(t.value, outer):
                                self.mutate(t.value, order, r, True)
                    elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                        self.s.ret |= order
                    elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                        self.s.ret |= order
            for v in assigned:
                if v in outer:
                    r[v] = r.get(v, NONE) | order
            return r
        finally:
            self._outer = saved

    def _of_element(self, t: ast.Attribute, body: list) -> bool:
        """x.attr = ... where x is bound by the iteration"""
        b = t.value
        while isinstance(b, (ast.Attribute, ast.Subscript)):
            b = b.value
        return isinstance(b, ast.Name) and b.id not in ("self", "cls") and b.id not in self.f.params and b.id not in (self._outer[-1][1] if self._outer else set())

    def _outside(self, e: ast.AST, outer: set[str]) -> bool:
        while isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Name):
            return e.id in outer
        return True

    def _accumulates_set(self, name: str, v: ast.AST) -> bool:
        return isinstance(v, (ast.BinOp, ast.BoolOp)) and isinstance(getattr(v, "op", None), (ast.BitOr, ast.BitAnd, ast.Or, ast.And)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(v))

    def _numeric_or_set(self, e: ast.AST) -> bool:
        t = self.p.mtype(self.f.module, e)
        s = str(t)
        return s in ("int", "float", "bool") or s.startswith(("set[", "frozenset[", "builtins.int", "builtins.float", "builtins.bool", "builtins.set", "builtins.frozenset"))

    # ------------------------------------------------------------- expressions
    def ev(self, n: Optional[ast.AST], env: dict, ctl: frozenset = NONE) -> frozenset:
        if n is None or isinstance(n, ast.Constant):
            return NONE
        src = self.t.source(self.f, n)
        r = self._ev(n, env, ctl)
        return r | src if src else r

    def _ev(self, n: ast.AST, env: dict, ctl: frozenset) -> frozenset:
        if isinstance(n, ast.Name):
            return env.get(n.id, NONE)
        if isinstance(n, ast.Attribute):
            base = self.ev(n.value, env, ctl)
            h = self.t.get(self.p.classes_of(self.f.module, n.value), n.attr)
            # a property
            for c in self.p.classes_of(self.f.module, n.value):
                g = self.p.find_method(c, n.attr)
                if g is not None and g.is_property:
                    h |= self.apply(g, [base], {}, n, env, ctl)
            return h | L(l for l in base if not is_sym(l) and not is_order(l)) | (L(l for l in base if l[0] in ("param", "elem")) if not (isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")) else NONE)
        if isinstance(n, ast.Call):
            return self.call(n, env, ctl)
        if isinstance(n, ast.Subscript):
            v = self.ev(n.value, env, ctl)
            i = self.ev(n.slice, env, ctl)
            if "dict" in str(self.p.mtype(self.f.module, n.value))[:30]:
                v = L(l for l in v if not is_order(l))
            return v | i
        if isinstance(n, ast.Lambda):
            e = dict(env)
            for a in n.args.args:
                e[a.arg] = NONE
            return self.ev(n.body, e, ctl)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e = dict(env)
            out = NONE
            for g in n.generators:
                it = self.ev(g.iter, e, ctl)
                if self.t.unordered(self.f, g.iter):
                    it |= L([("order", f"the order of `{ast.unparse(g.iter)[:50]}`", self.f.loc(g.iter))])
                elif isinstance(g.iter, ast.Name) and g.iter.id in self.f.params and ("param", g.iter.id, "") in it:
                    it |= L([("order", "@" + g.iter.id, "")])
                self.bind(g.target, elems(it), e, NONE)
                out |= L(l for l in it if is_order(l))
                for c in g.ifs:
                    out |= self.ev(c, e, ctl)
            if isinstance(n, ast.DictComp):
                out |= self.ev(n.key, e, ctl) | self.ev(n.value, e, ctl)
            else:
                out |= self.ev(n.elt, e, ctl)
            if isinstance(n, ast.SetComp):
                out = L(l for l in out if not is_order(l))
            return out
        if isinstance(n, ast.Compare):
            out = NONE
            for x in [n.left] + n.comparators:
                v = self.ev(x, env, ctl)
                out |= v
            if all(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
                out = L(l for l in out if not is_order(l))
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                out = L(l for l in out if not is_order(l))
            # equality of addresses / hashes is identity
            if all(isinstance(o, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) for o in n.ops):
                out = L(l for l in out if not (l[0] == "value" and l[1].startswith(("id(", "hash("))))
            return out
        if isinstance(n, ast.Starred):
            v = self.ev(n.value, env, ctl)
            if self.t.unordered(self.f, n.value):
                v |= L([("order", f"the order of `{ast.unparse(n.value)[:50]}`", self.f.loc(n.value))])
            return v
        if isinstance(n, ast.NamedExpr):
            v = self.ev(n.value, env, ctl)
            self.bind(n.target, v, env, ctl)
            return v
        if isinstance(n, ast.IfExp):
            c = L(l for l in self.ev(n.test, env, ctl) if l[0] != "param")
            return c | self.ev(n.body, env, ctl) | self.ev(n.orelse, env, ctl)
        if isinstance(n, ast.BoolOp):
            out = NONE
            for x in n.values:
                out |= self.ev(x, env, ctl)
            return out
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return L(l for l in self.ev(n.operand, env, ctl) if not is_order(l))
        if isinstance(n, ast.FormattedValue):
            v = self.ev(n.value, env, ctl)
            if self.t.unordered(self.f, n.value):
                v |= L([("order", f"the order of `{ast.unparse(n.value)[:50]}`", self.f.loc(n.value))])
            return v
        if isinstance(n, (ast.Set, ast.Dict)):
            out = NONE
            for c in ast.iter_child_nodes(n):
                out |= self.ev(c, env, ctl)
            return L(l for l in out if not is_order(l)) if isinstance(n, ast.Set) else out
        out = NONE
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                out |= self.ev(c, env, ctl)
        return out

    def total_key(self, n: ast.Call) -> bool:
        """the key determines the element: it is, or contains, the element itself"""
        for k in n.keywords:
            if k.arg != "key":
                continue
            v = k.value
            if isinstance(v, ast.Lambda) and v.args.args:
                a = v.args.args[0].arg
                b = v.body
                if isinstance(b, ast.Name) and b.id == a:
                    return True
                if isinstance(b, ast.Tuple) and any(isinstance(e, ast.Name) and e.id == a for e in b.elts):
                    return True
                return False
            return dotted(v) in ("str", "repr") or isinstance(v, ast.Constant)
        return True

    def call(self, n: ast.Call, env: dict, ctl: frozenset) -> frozenset:
        d = self.p.full_name(self.f.module, n.func) or dotted(n.func)
        fs, ext = self.p.callees(self.f.module, n)
        args: list[frozenset] = []
        for a in n.args:
            v = self.ev(a, env, ctl)
            args.append(v)
        kws = {k.arg: self.ev(k.value, env, ctl) for k in n.keywords}
        for k in n.keywords:
            if k.arg == "key" and dotted(k.value) in ("id", "hash"):
                kws["key"] |= L([("value", f"the order by {dotted(k.value)}", self.f.loc(n))])
        allv = NONE
        for v in args + list(kws.values()):
            allv |= v
        if d.startswith(LOGGING) or d == "print":
            return NONE
        recv: frozenset = NONE
        if isinstance(n.func, ast.Attribute):
            recv = self.ev(n.func.value, env, ctl)
        elif isinstance(n.func, (ast.Call, ast.Subscript)):
            recv = self.ev(n.func, env, ctl)
        name = dotted(n.func).split(".")[-1] or (n.func.attr if isinstance(n.func, ast.Attribute) else "")
        ordctl: frozenset = ctl
        if self._outer:
            for o, outer in self._outer:
                ordctl |= o
        if fs:
            out = NONE
            for g in fs:
                a2 = list(args)
                if g.cls is not None and not g.is_static and (isinstance(n.func, ast.Attribute) or g.name in ("__init__", "__new__", "__post_init__")):
                    a2 = [recv] + a2
                out |= self.apply(g, a2, kws, n, env, ordctl if self._outer else ctl)
            return out
        c = self.p.constructed_class(self.f.module, n)
        if c and c in self.p.classes:
            init = self.p.find_method(c, "__init__")
            if init is not None:
                self.apply(init, [NONE] + args, kws, n, env, ctl)
            else:
                fields = self._fields(c)
                for fl, v in zip(fields, args):
                    self.t.put((c, fl), v)
                    self._sym((c, fl), v)
                for k, v in kws.items():
                    if k:
                        self.t.put((c, k), v)
                        self._sym((c, k), v)
            post = self.p.find_method(c, "__post_init__")
            if post is not None:
                self.apply(post, [NONE], {}, n, env, ctl)
            return NONE
        # unknown or external
        if name in MUT_METHODS and isinstance(n.func, ast.Attribute):
            base = n.func.value
            if name == "sort":
                if self.total_key(n) and isinstance(base, ast.Name):
                    env[base.id] = L(l for l in env.get(base.id, NONE) if not is_order(l))
                for k in n.keywords:
                    if k.arg == "key":
                        self.mutate(base, L(l for l in kws.get("key", NONE) if l[0] == "value"), env)
                return NONE
            if name == "pop" and self.t.unordered(self.f, base):
                return L([("order", f"the element taken from `{ast.unparse(base)[:40]}`", self.f.loc(n))]) | recv
            v = allv | ctl
            seq = name in SEQ_METHODS
            if seq:
                for o, outer in self._outer:
                    if self._outside(base, outer) and not self._elem_attr(base, outer):
                        v |= o
                for a in n.args:
                    if self.t.unordered(self.f, a) and name in ("extend",):
                        v |= L([("order", f"the order of `{ast.unparse(a)[:50]}`", self.f.loc(a))])
            elif name == "add" or (name in ("update",) and "set[" in str(self.p.mtype(self.f.module, base))[:20]):
                v = L(l for l in v if not is_order(l))
            self.mutate(base, v, env, seq)
            if name in ("pop", "setdefault"):
                return recv | allv
            return NONE
        un_arg = NONE
        for a in n.args:
            if self.t.unordered(self.f, a):
                un_arg |= L([("order", f"the order of `{ast.unparse(a)[:50]}`", self.f.loc(a))])
        if d in ("sorted", "builtins.sorted"):
            v = allv | un_arg
            kl = kws.get("key", NONE)
            if self.total_key(n):
                v = L(l for l in v if not is_order(l)) | kl
            return v
        if d in ("max", "min", "builtins.max", "builtins.min"):
            v = allv | un_arg
            if self.total_key(n):
                v = L(l for l in v if not is_order(l))
            return v
        if d.replace("builtins.", "") in ("open", "io.open") or d.startswith(("os.path.is", "os.path.exists", "subprocess.", "shutil.", "os.remove", "os.mkdir", "os.makedirs")):
            # the content of a file does not depend on the name of the temporary directory, nor a command on its environment
            if d.startswith(("subprocess.", "shutil.")):
                return NONE
            return L(l for l in allv | recv if not l[1].startswith("tempfile."))
        if d.replace("builtins.", "") in ORDER_FREE_CALLS:
            return L(l for l in allv if not is_order(l))
        if d.replace("builtins.", "") in ("list", "tuple", "enumerate", "iter", "next", "map", "filter", "zip", "reversed", "str", "repr", "dict", "dict.fromkeys", "itertools.chain", "functools.reduce", "collections.OrderedDict", "collections.deque") \
                or name in ("join", "fromkeys", "format", "chain", "islice"):
            return allv | recv | un_arg
        return allv | recv

    def _elem_attr(self, base: ast.AST, outer: set[str]) -> bool:
        """x.items.append(...) where x is bound inside the loop"""
        b = base
        while isinstance(b, (ast.Attribute, ast.Subscript)):
            b = b.value
        return isinstance(b, ast.Name) and b is not base and b.id not in outer and b.id not in ("self", "cls") and b.id not in self.f.params and not isinstance(b, ast.Call)

    def _fields(self, c: str) -> list[str]:
        out: list[str] = []
        for k in reversed(self.p.mro(c)):
            ci = self.p.classes.get(k)
            if ci is None:
                continue
            for st in ci.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id not in out:
                    out.append(st.target.id)
        return out

    def _sym(self, key: tuple, v: frozenset) -> None:
        sym = L(l for l in v if is_sym(l))
        if sym:
            self.s.attr_out[key] = self.s.attr_out.get(key, NONE) | sym

    def apply(self, g: Func, args: list, kws: dict, n: ast.AST, env: dict, ctl: frozenset) -> frozenset:
        s = self.t.sum.get(g)
        if s is None:
            return NONE
        params = g.params
        amap: dict[str, frozenset] = {}
        nodes: dict[str, ast.AST] = {}
        real = list(n.args) if isinstance(n, ast.Call) else []
        off = len(args) - len(real)
        for i, v in enumerate(args):
            if i < len(params):
                amap[params[i]] = amap.get(params[i], NONE) | v
                if i - off >= 0 and i - off < len(real):
                    nodes[params[i]] = real[i - off]
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and i == 0:
                    nodes[params[i]] = n.func.value
            elif params:
                amap[params[-1]] = amap.get(params[-1], NONE) | v
        for k, v in kws.items():
            if k in params:
                amap[k] = v
                for kw in getattr(n, "keywords", []):
                    if kw.arg == k:
                        nodes[k] = kw.value

        def res(ls: frozenset) -> frozenset:
            out = set()
            for l in ls:
                if l[0] == "param":
                    out |= amap.get(l[1], NONE)
                elif l[0] == "elem":
                    out |= elems(amap.get(l[1], NONE))
                elif is_sym(l):
                    prm = l[1][1:]
                    a = nodes.get(prm)
                    out |= {x for x in amap.get(prm, NONE) if is_order(x)}
                    if a is not None and self.t.unordered(self.f, a):
                        out.add(("order", f"the order of `{ast.unparse(a)[:50]}`", self.f.loc(a)))
                    if isinstance(a, ast.Name) and a.id in self.f.params and ("param", a.id, "") in amap.get(prm, NONE):
                        out.add(("order", "@" + a.id, ""))
                else:
                    out.add(l)
            return L(out)

        for prm, ls in s.param_out.items():
            v = res(ls)
            if prm in s.seq_params:
                v |= ctl
            if prm in nodes and v:
                self.mutate(nodes[prm], v, env)
        for prm in s.seq_params:
            if prm in nodes:
                v = ctl
                self.mutate(nodes[prm], v, env, True)
        for key, ls in s.attr_out.items():
            v = res(ls)
            self.t.put(key, v)
            sym = L(l for l in v if is_sym(l))
            if sym:
                self.s.attr_out[key] = self.s.attr_out.get(key, NONE) | sym
        for key in s.seq_attrs:
            if ctl:
                self.t.put(key, ctl)
            self.s.seq_attrs.add(key)
        return res(s.ret)
