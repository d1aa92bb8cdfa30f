"""Constant evaluation of the source (interprocedural conditional constant propagation over a finite table domain).

Tables and the pure functions which look into them are folded to constants at given literals, from the syntax tree of /repo: nothing of
/repo is imported or run. Anything which is not a constant (I/O, unknown attributes, unknown library calls) makes the result Unknown, never a guess.
`raise` and failed `assert` are results too (Raised)."""
from __future__ import annotations

import ast
import copy
import functools
import itertools
import operator
import re
from typing import Any, Callable, Optional

from vlib.project import Cls, Func, Module, Project, dotted


class Unknown(Exception):
    """not a constant"""


class Raised(Exception):
    def __init__(self, name: str, text: str = ""):
        super().__init__(name)
        self.name, self.text = name, text


class Rec:
    """a record: fields, and class when it is one of the project"""

    def __init__(self, _cls: Optional[str] = None, **fields: Any):
        self.cls, self.fields = _cls, dict(fields)

    def __repr__(self) -> str:
        return f"Rec({self.cls}, {self.fields})"

    def __deepcopy__(self, memo: dict) -> "Rec":
        r = Rec(self.cls)
        memo[id(self)] = r
        r.fields = {k: (v if callable(v) else copy.deepcopy(v, memo)) for k, v in self.fields.items()}
        return r


class EnumVal:
    def __init__(self, cls: str, name: str):
        self.cls, self.name = cls, name

    def __eq__(self, o: Any) -> bool:
        return isinstance(o, EnumVal) and (o.cls, o.name) == (self.cls, self.name)

    def __hash__(self) -> int:
        return hash((self.cls, self.name))

    def __deepcopy__(self, memo: dict) -> "EnumVal":
        return self

    def __repr__(self) -> str:
        return f"{self.cls}.{self.name}"


class Bound:
    """a function of the project, with the receiver"""

    def __init__(self, f: Func, recv: Any = None, env: Optional["Env"] = None, has_recv: bool = False):
        self.f, self.recv, self.env, self.has_recv = f, recv, env, has_recv

    def __deepcopy__(self, memo: dict) -> "Bound":
        return self


class ClsVal:
    def __init__(self, c: Cls):
        self.c = c

    def __deepcopy__(self, memo: dict) -> "ClsVal":
        return self


class LamVal:
    def __init__(self, node: ast.Lambda, env: "Env"):
        self.node, self.env = node, env


class ModVal:
    def __init__(self, name: str):
        self.name = name


class Env:
    def __init__(self, mod: Module, func: Optional[Func], parent: Optional["Env"] = None):
        self.mod, self.func, self.parent, self.vars = mod, func, parent, {}
        self.nonlocals: set[str] = set()

    def find(self, n: str) -> Optional["Env"]:
        e: Optional[Env] = self
        while e is not None:
            if n in e.vars:
                return e
            e = e.parent
        return None


class _Ret(Exception):
    def __init__(self, v: Any):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod, ast.FloorDiv: operator.floordiv, ast.BitOr: operator.or_,
        ast.BitAnd: operator.and_, ast.Div: operator.truediv, ast.BitXor: operator.xor}
_CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
        ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b, ast.Is: lambda a, b: a is b or (isinstance(a, EnumVal) and a == b),
        ast.IsNot: lambda a, b: not (a is b or (isinstance(a, EnumVal) and a == b))}
_NATIVE = (str, list, tuple, dict, set, frozenset, int, float, bool, bytes, re.Pattern, re.Match, type({}.keys()), type({}.items()), type({}.values()))


class CEval:
    def __init__(self, p: Project, steps: int = 200000, externals: Optional[dict[str, Callable]] = None):
        self.p, self.left = p, steps
        self.externals = externals or {}
        self.globals: dict[tuple[str, str], Any] = {}
        self.pending: set[tuple[str, str]] = set()
        self.depth = 0
        self.visited: set[str] = set()

    # -- entry points
    def global_value(self, mod: Module, name: str) -> Any:
        k = (mod.name, name)
        if k in self.globals:
            return self.globals[k]
        if k in self.pending:
            raise Unknown(name)
        self.pending.add(k)
        try:
            v = self._global(mod, name)
        finally:
            self.pending.discard(k)
        self.globals[k] = v
        return v

    def _global(self, mod: Module, name: str) -> Any:
        value: Any = Unknown
        for st in mod.tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == name:
                value = self.ev(st.value, Env(mod, None))
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name and st.value is not None:
                value = self.ev(st.value, Env(mod, None))
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == name and value is not Unknown:
                value = _BIN[type(st.op)](value, self.ev(st.value, Env(mod, None)))
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == name:
                value = self.definition(mod.name + "." + name)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and isinstance(st.value.func.value, ast.Name) \
                    and st.value.func.value.id == name and value is not Unknown:
                args = [self.ev(a, Env(mod, None)) for a in st.value.args]
                getattr(value, st.value.func.attr)(*args)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for a in st.names:
                    if (a.asname or a.name.split(".")[0]) == name:
                        full = self.p.imports(mod).get(name, a.name)
                        value = self.imported(full)
            elif isinstance(st, (ast.For, ast.While, ast.If, ast.With, ast.Try)):
                if any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(st)):
                    raise Unknown(name)
        if value is Unknown:
            raise Unknown(f"global {name}")
        return value

    def imported(self, full: str) -> Any:
        if full in self.p.modules:
            return ModVal(full)
        try:
            return self.definition(full)
        except Unknown:
            pass
        if "." in full:
            m, n = full.rsplit(".", 1)
            if m in self.p.modules:
                return self.global_value(self.p.modules[m], n)
        return ModVal(full)

    def definition(self, full: str) -> Any:
        if full in self.p.classes:
            return ClsVal(self.p.classes[full])
        if full in self.p.funcs:
            return Bound(self.p.funcs[full])
        raise Unknown(full)

    def call(self, f: Func, *args: Any, **kw: Any) -> Any:
        return self.apply(Bound(f), list(args), kw)

    # -- calls
    def apply(self, fn: Any, args: list, kw: dict) -> Any:
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Unknown("recursion")
        try:
            if isinstance(fn, Bound):
                if fn.has_recv:
                    args = [fn.recv] + args
                return self.call_func(fn.f, args, kw, fn.env)
            if isinstance(fn, LamVal):
                e = Env(fn.env.mod, fn.env.func, fn.env)
                self.bind(fn.node.args, args, kw, e, fn.env)
                return self.ev(fn.node.body, e)
            if isinstance(fn, ClsVal):
                return self.construct(fn.c, args, kw)
            if callable(fn):
                try:
                    return fn(*args, **kw)
                except (Unknown, Raised, _Ret):
                    raise
                except (KeyError, IndexError, ValueError, AttributeError, TypeError) as e:
                    raise Raised(type(e).__name__)
            raise Unknown(f"call {getattr(fn, 'name', type(fn).__name__)}")
        finally:
            self.depth -= 1

    def bind(self, a: ast.arguments, args: list, kw: dict, e: Env, denv: Env) -> None:
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(k.arg)
            if d is not None:
                defaults[k.arg] = d
        pos = [x.arg for x in a.posonlyargs + a.args]
        for n, v in zip(pos, args):
            e.vars[n] = v
        if len(args) > len(pos):
            if a.vararg is None:
                raise Raised("TypeError")
            e.vars[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg is not None:
            e.vars[a.vararg.arg] = ()
        extra = {}
        for n, v in kw.items():
            if n in names:
                e.vars[n] = v
            else:
                extra[n] = v
        if a.kwarg is not None:
            e.vars[a.kwarg.arg] = extra
        elif extra:
            raise Raised("TypeError")
        for n in names:
            if n not in e.vars:
                if n not in defaults:
                    raise Raised("TypeError")
                e.vars[n] = self.ev(defaults[n], denv)

    def call_func(self, f: Func, args: list, kw: dict, env: Optional[Env]) -> Any:
        if isinstance(f.node, ast.Lambda) or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(f.node)):
            raise Unknown("generator")
        self.visited.add(f.qual)
        e = Env(f.module, f, env)
        self.bind(f.node.args, args, kw, e, env or Env(f.module, None))
        try:
            self.block(f.node.body, e)
        except _Ret as r:
            return r.v
        return None

    def construct(self, c: Cls, args: list, kw: dict) -> Any:
        if any(b.split(".")[-1] in ("Enum", "IntEnum", "Flag") for b in c.bases):
            raise Unknown("enum")
        if any(b.split(".")[-1] in ("Exception", "ValueError", "RuntimeError") for b in c.bases):
            return Rec(c.full)
        r = Rec(c.full)
        init = self.p.find_method(c.full, "__init__")
        if init is not None:
            self.call_func(init, [r] + args, kw, None)
            return r
        fields: list[tuple[str, Optional[ast.expr], Module]] = []
        for full in reversed(self.p.mro(c.full)):
            k = self.p.classes.get(full)
            for st in k.node.body if k is not None else []:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    fields = [x for x in fields if x[0] != st.target.id] + [(st.target.id, st.value, k.module)]
        names = [x[0] for x in fields]
        if args and "dataclass" not in " ".join(ast.unparse(d) for d in c.node.decorator_list):
            raise Unknown("constructor")
        for n, v in zip(names, args):
            r.fields[n] = v
        r.fields.update(kw)
        for n, d, m in fields:
            if n not in r.fields and d is not None:
                try:
                    if isinstance(d, ast.Call) and dotted(d.func).endswith("field"):
                        for k in d.keywords:
                            if k.arg == "default":
                                r.fields[n] = self.ev(k.value, Env(m, None))
                            elif k.arg == "default_factory":
                                r.fields[n] = self.apply(self.ev(k.value, Env(m, None)), [], {})
                    else:
                        r.fields[n] = self.ev(d, Env(m, None))
                except Unknown:
                    pass
        return r

    # -- statements
    def block(self, body: list[ast.stmt], e: Env) -> None:
        for st in body:
            self.stmt(st, e)

    def stmt(self, st: ast.stmt, e: Env) -> None:
        self.left -= 1
        if self.left <= 0:
            raise Unknown("too long")
        if isinstance(st, ast.Expr):
            self.ev(st.value, e)
        elif isinstance(st, ast.Assign):
            v = self.ev(st.value, e)
            for t in st.targets:
                self.store(t, v, e)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.store(st.target, self.ev(st.value, e), e)
        elif isinstance(st, ast.AugAssign):
            cur = self.ev(_as_load(st.target), e)
            v = self.ev(st.value, e)
            if isinstance(cur, list) and isinstance(st.op, ast.Add):
                cur += list(v)
            else:
                cur = self.native(_BIN.get(type(st.op)), cur, v)
            self.store(st.target, cur, e)
        elif isinstance(st, ast.Return):
            raise _Ret(self.ev(st.value, e) if st.value is not None else None)
        elif isinstance(st, ast.If):
            self.block(st.body if self.truth(self.ev(st.test, e)) else st.orelse, e)
        elif isinstance(st, ast.For):
            brk = False
            for x in self.iterate(self.ev(st.iter, e)):
                self.store(st.target, x, e)
                try:
                    self.block(st.body, e)
                except _Brk:
                    brk = True
                    break
                except _Cont:
                    continue
            if not brk:
                self.block(st.orelse, e)
        elif isinstance(st, ast.While):
            brk = False
            while self.truth(self.ev(st.test, e)):
                self.left -= 1
                if self.left <= 0:
                    raise Unknown("too long")
                try:
                    self.block(st.body, e)
                except _Brk:
                    brk = True
                    break
                except _Cont:
                    continue
            if not brk:
                self.block(st.orelse, e)
        elif isinstance(st, ast.Break):
            raise _Brk()
        elif isinstance(st, ast.Continue):
            raise _Cont()
        elif isinstance(st, ast.Raise):
            name = dotted(st.exc.func if isinstance(st.exc, ast.Call) else st.exc) if st.exc is not None else "reraise"
            raise Raised(name or "Exception")
        elif isinstance(st, ast.Assert):
            if not self.truth(self.ev(st.test, e)):
                raise Raised("AssertionError")
        elif isinstance(st, (ast.FunctionDef,)):
            f = next((g for g in self.p.funcs.values() if g.node is st), None)
            if f is None:
                raise Unknown("def")
            e.vars[st.name] = Bound(f, env=e)
        elif isinstance(st, ast.Nonlocal):
            e.nonlocals |= set(st.names)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                if isinstance(st, ast.ImportFrom):
                    full = self.p.import_base(e.mod, st) + "." + a.name
                    e.vars[a.asname or a.name] = self.imported(full)
                else:
                    e.vars[a.asname or a.name.split(".")[0]] = ModVal(a.name if a.asname else a.name.split(".")[0])
        elif isinstance(st, ast.Try):
            try:
                self.block(st.body, e)
            except Raised as r:
                for h in st.handlers:
                    names = [] if h.type is None else [dotted(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if h.type is None or r.name.split(".")[-1] in names or "Exception" in names:
                        if h.name:
                            e.vars[h.name] = Rec(r.name)
                        self.block(h.body, e)
                        break
                else:
                    raise
            else:
                self.block(st.orelse, e)
            finally:
                self.block(st.finalbody, e)
        elif isinstance(st, (ast.Pass, ast.Global)):
            pass
        elif isinstance(st, ast.Match):
            self.match(st, e)
        else:
            raise Unknown(type(st).__name__)

    def match(self, st: ast.Match, e: Env) -> None:
        v = self.ev(st.subject, e)
        for c in st.cases:
            if self.pattern(c.pattern, v, e) and (c.guard is None or self.truth(self.ev(c.guard, e))):
                self.block(c.body, e)
                return

    def pattern(self, pt: ast.pattern, v: Any, e: Env) -> bool:
        if isinstance(pt, ast.MatchValue):
            return bool(v == self.ev(pt.value, e))
        if isinstance(pt, ast.MatchSingleton):
            return v is pt.value
        if isinstance(pt, ast.MatchOr):
            return any(self.pattern(x, v, e) for x in pt.patterns)
        if isinstance(pt, ast.MatchAs):
            if pt.pattern is not None and not self.pattern(pt.pattern, v, e):
                return False
            if pt.name is not None:
                e.vars[pt.name] = v
            return True
        raise Unknown("pattern")

    def store(self, t: ast.AST, v: Any, e: Env) -> None:
        if isinstance(t, ast.Name):
            if t.id in e.nonlocals and e.parent is not None:
                k = e.parent.find(t.id)
                if k is not None:
                    k.vars[t.id] = v
                    return
            e.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            if len(vs) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unknown("unpacking")
            for x, y in zip(t.elts, vs):
                self.store(x, y, e)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, e)
            if not isinstance(b, (dict, list)):
                raise Unknown("store")
            b[self.ev(t.slice, e)] = v
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, e)
            if not isinstance(b, Rec):
                raise Unknown("store")
            b.fields[t.attr] = v
        else:
            raise Unknown("store")

    def iterate(self, v: Any) -> Any:
        if isinstance(v, _NATIVE) or hasattr(v, "__next__") or isinstance(v, (range, enumerate, zip, map, filter, reversed)):
            if isinstance(v, (int, float)):
                raise Raised("TypeError")
            return v
        raise Unknown("iteration")

    def truth(self, v: Any) -> bool:
        if isinstance(v, (Rec, Bound, ClsVal, LamVal, EnumVal)):
            return True
        if isinstance(v, ModVal):
            raise Unknown("truth")
        return bool(v)

    def native(self, op: Optional[Callable], *a: Any) -> Any:
        if op is None or any(isinstance(x, (ModVal,)) for x in a):
            raise Unknown("operation")
        try:
            return op(*a)
        except (TypeError, KeyError, IndexError, ValueError) as x:
            raise Raised(type(x).__name__)

    # -- expressions
    def ev(self, n: ast.AST, e: Env) -> Any:
        self.left -= 1
        if self.left <= 0:
            raise Unknown("too long")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unknown(type(n).__name__)
        return m(n, e)

    def e_Constant(self, n: ast.Constant, e: Env) -> Any:
        return n.value

    def e_Name(self, n: ast.Name, e: Env) -> Any:
        k = e.find(n.id)
        if k is not None:
            return k.vars[n.id]
        try:
            return self.global_value(e.mod, n.id)
        except Unknown:
            if n.id in _BUILTINS and not any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == n.id for x in e.mod.tree.body):
                return self.builtin(n.id)
            raise

    def e_Attribute(self, n: ast.Attribute, e: Env) -> Any:
        return self.attr(self.ev(n.value, e), n.attr)

    def attr(self, b: Any, a: str) -> Any:
        if isinstance(b, Rec):
            if a in b.fields:
                return b.fields[a]
            if b.cls is not None and b.cls in self.p.classes:
                m = self.p.find_method(b.cls, a)
                if m is not None:
                    if m.is_property:
                        return self.call_func(m, [b], {}, None)
                    return Bound(m, b, has_recv=not m.is_static)
                for full in self.p.mro(b.cls):
                    k = self.p.classes.get(full)
                    if k is not None:
                        try:
                            return self.class_attr(k, a)
                        except Unknown:
                            continue
            raise Unknown("attribute " + a)
        if isinstance(b, ModVal):
            full = b.name + "." + a
            if full in self.p.modules:
                return ModVal(full)
            if b.name in self.p.modules:
                return self.global_value(self.p.modules[b.name], a)
            if full in self.externals:
                return self.externals[full]
            if b.name == "re" and a in _RE:
                return self.re_fn(a)
            if full == "itertools.dropwhile" or full == "itertools.takewhile":
                return lambda f, xs: list(getattr(itertools, a)(self.fn(f), self.iterate(xs)))
            if full in ("itertools.chain", "functools.reduce", "operator.itemgetter"):
                return getattr({"itertools": itertools, "functools": functools, "operator": operator}[b.name], a)
            if full in ("copy.copy", "copy.deepcopy"):
                return copy.deepcopy if a == "deepcopy" else copy.copy
            return ModVal(full)
        if isinstance(b, ClsVal):
            if any(x.split(".")[-1] in ("Enum", "IntEnum", "Flag") for x in b.c.bases):
                return EnumVal(b.c.full, a)
            m = self.p.find_method(b.c.full, a)
            if m is not None:
                return Bound(m, b, has_recv=m.is_classmethod)
            return self.class_attr(b.c, a)
        if isinstance(b, EnumVal):
            if a == "name":
                return b.name
            raise Unknown("enum value")
        if isinstance(b, _NATIVE) and not a.startswith("__"):
            try:
                g = getattr(b, a)
            except AttributeError:
                raise Raised("AttributeError")
            if isinstance(b, (re.Pattern, re.Match)) or not callable(g):
                return self.wrap_re(g) if callable(g) else g
            if isinstance(b, list) and a == "sort":
                raise Unknown("sort")
            return g
        raise Unknown("attribute " + a)

    def class_attr(self, c: Cls, a: str) -> Any:
        for st in c.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == a and st.value is not None:
                return self.ev(st.value, Env(c.module, None))
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a for t in st.targets):
                return self.ev(st.value, Env(c.module, None))
        raise Unknown("attribute " + a)

    def e_Call(self, n: ast.Call, e: Env) -> Any:
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2:
            return self.isinst(self.ev(n.args[0], e), n.args[1], e)
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            raise Unknown("super")
        fn = self.ev(n.func, e)
        args: list[Any] = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.ev(a.value, e)))
            else:
                args.append(self.ev(a, e))
        kw: dict[str, Any] = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, e)
                if not isinstance(d, dict):
                    raise Unknown("**")
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, e)
        return self.apply(fn, args, kw)

    def isinst(self, v: Any, t: ast.expr, e: Env) -> bool:
        ts = t.elts if isinstance(t, ast.Tuple) else [t]
        for x in ts:
            if isinstance(x, ast.Name) and x.id in ("str", "int", "list", "dict", "tuple", "set", "float", "bool"):
                if isinstance(v, {"str": str, "int": int, "list": list, "dict": dict, "tuple": tuple, "set": set, "float": float, "bool": bool}[x.id]):
                    return True
                continue
            if isinstance(v, _NATIVE) or v is None:
                continue
            c = self.ev(x, e)
            if not isinstance(c, ClsVal) or not isinstance(v, Rec) or v.cls is None:
                raise Unknown("isinstance")
            if c.c.full in self.p.mro(v.cls):
                return True
        return False

    def e_List(self, n: ast.List, e: Env) -> Any:
        return self.elts(n.elts, e)

    def elts(self, xs: list[ast.expr], e: Env) -> list:
        out: list[Any] = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.ev(x.value, e)))
            else:
                out.append(self.ev(x, e))
        return out

    def e_Tuple(self, n: ast.Tuple, e: Env) -> Any:
        return tuple(self.elts(n.elts, e))

    def e_Set(self, n: ast.Set, e: Env) -> Any:
        return set(self.elts(n.elts, e))

    def e_Dict(self, n: ast.Dict, e: Env) -> Any:
        out: dict[Any, Any] = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                out.update(self.ev(v, e))
            else:
                out[self.ev(k, e)] = self.ev(v, e)
        return out

    def e_BinOp(self, n: ast.BinOp, e: Env) -> Any:
        return self.native(_BIN.get(type(n.op)), self.ev(n.left, e), self.ev(n.right, e))

    def e_UnaryOp(self, n: ast.UnaryOp, e: Env) -> Any:
        v = self.ev(n.operand, e)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return self.native(operator.neg, v)
        raise Unknown("operation")

    def e_BoolOp(self, n: ast.BoolOp, e: Env) -> Any:
        v: Any = None
        for x in n.values:
            v = self.ev(x, e)
            if self.truth(v) != isinstance(n.op, ast.And):
                return v
        return v

    def e_Compare(self, n: ast.Compare, e: Env) -> Any:
        left = self.ev(n.left, e)
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, e)
            for x in (left, right):
                if isinstance(x, ModVal):
                    raise Unknown("compare")
            if isinstance(op, (ast.Eq, ast.NotEq)) and (isinstance(left, Rec) or isinstance(right, Rec)) and left is not right:
                raise Unknown("compare")
            if not self.native(_CMP[type(op)], left, right):
                return False
            left = right
        return True

    def e_IfExp(self, n: ast.IfExp, e: Env) -> Any:
        return self.ev(n.body if self.truth(self.ev(n.test, e)) else n.orelse, e)

    def e_NamedExpr(self, n: ast.NamedExpr, e: Env) -> Any:
        v = self.ev(n.value, e)
        self.store(n.target, v, e)
        return v

    def e_Lambda(self, n: ast.Lambda, e: Env) -> Any:
        return LamVal(n, e)

    def e_Subscript(self, n: ast.Subscript, e: Env) -> Any:
        b = self.ev(n.value, e)
        if isinstance(n.slice, ast.Slice):
            s = slice(*[self.ev(x, e) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step)])
            return self.native(operator.getitem, b, s)
        if not isinstance(b, _NATIVE):
            raise Unknown("subscript")
        return self.native(operator.getitem, b, self.ev(n.slice, e))

    def e_JoinedStr(self, n: ast.JoinedStr, e: Env) -> Any:
        out = ""
        for x in n.values:
            if isinstance(x, ast.Constant):
                out += x.value
            else:
                v = self.ev(x.value, e)
                if not isinstance(v, (str, int, float, bool)) and v is not None:
                    raise Unknown("format")
                if x.format_spec is not None:
                    out += format(v, self.ev(x.format_spec, e))
                else:
                    out += repr(v) if x.conversion == 114 else str(v)
        return out

    def comp(self, n: Any, e: Env, leaf: Callable[[Env], None]) -> None:
        ce = Env(e.mod, e.func, e)

        def rec(i: int) -> None:
            if i == len(n.generators):
                leaf(ce)
                return
            g = n.generators[i]
            for x in list(self.iterate(self.ev(g.iter, ce))):
                self.store(g.target, x, ce)
                if all(self.truth(self.ev(c, ce)) for c in g.ifs):
                    rec(i + 1)
        rec(0)

    def e_ListComp(self, n: ast.ListComp, e: Env) -> Any:
        out: list[Any] = []
        self.comp(n, e, lambda c: out.append(self.ev(n.elt, c)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n: ast.SetComp, e: Env) -> Any:
        return set(self.e_ListComp(n, e))  # type: ignore

    def e_DictComp(self, n: ast.DictComp, e: Env) -> Any:
        out: dict[Any, Any] = {}

        def leaf(c: Env) -> None:
            out[self.ev(n.key, c)] = self.ev(n.value, c)
        self.comp(n, e, leaf)
        return out

    # -- library
    def fn(self, v: Any) -> Callable:
        if isinstance(v, (Bound, LamVal, ClsVal)):
            return lambda *a, **k: self.apply(v, list(a), k)
        if callable(v):
            return v
        raise Unknown("function")

    def wrap_re(self, g: Callable) -> Callable:
        def w(*a: Any, **k: Any) -> Any:
            try:
                return g(*[self.fn(x) if isinstance(x, (Bound, LamVal)) else x for x in a], **k)
            except re.error:
                raise Raised("re.error")
        return w

    def re_fn(self, a: str) -> Any:
        g = getattr(re, a)
        return g if not callable(g) or isinstance(g, re.RegexFlag) else self.wrap_re(g)

    def builtin(self, name: str) -> Any:
        if name in ("map", "filter"):
            return lambda f, *xs: list((map if name == "map" else filter)(self.fn(f) if f is not None else None, *[self.iterate(x) for x in xs]))
        if name in ("sorted", "min", "max"):
            def srt(*a: Any, **k: Any) -> Any:
                if k.get("key") is not None:
                    k["key"] = self.fn(k["key"])
                return {"sorted": sorted, "min": min, "max": max}[name](*a, **k)
            return srt
        if name == "print":
            return lambda *a, **k: None
        if name in ("any", "all"):
            return lambda xs: {"any": any, "all": all}[name](self.truth(x) for x in xs)
        return _BUILTINS[name]


_RE = {"compile", "sub", "subn", "match", "search", "fullmatch", "findall", "split", "escape", "finditer", "IGNORECASE", "MULTILINE", "DOTALL", "VERBOSE"}
_BUILTINS: dict[str, Any] = {"len": len, "list": list, "map": map, "filter": filter, "sorted": sorted, "zip": zip, "enumerate": enumerate, "str": str, "int": int,
                             "range": range, "any": any, "all": all, "set": set, "dict": dict, "tuple": tuple, "reversed": reversed, "min": min, "max": max,
                             "bool": bool, "repr": repr, "sum": sum, "float": float, "print": print, "frozenset": frozenset, "ord": ord, "chr": chr, "abs": abs,
                             "True": True, "False": False, "None": None}


def _as_load(t: ast.expr) -> ast.expr:
    t = copy.copy(t)
    if hasattr(t, "ctx"):
        t.ctx = ast.Load()
    return t
