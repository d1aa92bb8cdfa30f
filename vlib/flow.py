"""Forward value flow: where may the value of an expression end up?

Copies are followed through variables, parameters, returned values, attributes, containers and text operations, over the whole
program; what is reported are the terminal uses (compared, tested, searched for, used as a pattern, raised, logged, dropped,
passed to a given function, or emitted = anything else)."""
from __future__ import annotations

import ast
from typing import Iterable, Iterator, Optional

from vlib.project import Func, Module, Project

SEARCH = {"find", "rfind", "index", "rindex", "startswith", "endswith", "split", "rsplit", "partition", "rpartition", "count", "strip", "lstrip", "rstrip",
          "removeprefix", "removesuffix", "__contains__"}
TEXT = {"replace", "strip", "lstrip", "rstrip", "lower", "upper", "format", "join", "split", "splitlines", "rsplit", "partition", "rpartition", "capitalize",
        "title", "expandtabs", "ljust", "rjust", "center", "zfill", "removeprefix", "removesuffix", "casefold", "encode", "decode", "translate"}
REGEX = {"re.sub", "re.subn", "re.search", "re.match", "re.fullmatch", "re.findall", "re.finditer", "re.split", "re.compile", "re.escape"}
LOG = {"logging.warning", "logging.info", "logging.error", "logging.debug", "logging.critical", "logging.exception", "logging.log", "warnings.warn", "print"}
CONT_METHODS = {"get", "pop", "copy", "values", "items", "keys"}


class Use:
    __slots__ = ("kind", "node", "mod", "detail")

    def __init__(self, kind: str, node: ast.AST, mod: Module, detail: object = None):
        self.kind, self.node, self.mod, self.detail = kind, node, mod, detail

    def __repr__(self) -> str:
        return f"{self.kind}@{self.mod.rel}:{getattr(self.node, 'lineno', 0)} {self.detail or ''}"


class Flow:
    def __init__(self, p: Project, stop: Iterable[str] = (), within: Optional[set[ast.AST]] = None, follow_attrs: bool = True, concat: bool = True):
        """stop: simple names of project functions which are terminals; within: only these nodes are considered"""
        self.p, self.stop, self.within, self.follow_attrs = p, set(stop), within, follow_attrs
        self.concat = concat
        self._loads: dict[tuple[Func, str], list[ast.AST]] = {}
        self._attr: Optional[dict[str, list[tuple[Module, ast.Attribute]]]] = None

    # ---------------------------------------------------------------- indexes
    def loads(self, f: Func, name: str) -> list[ast.AST]:
        k = (f, name)
        r = self._loads.get(k)
        if r is None:
            r = []
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
                    r.append(n)
            self._loads[k] = r
        return r

    def attr_loads(self, classes: set[str], attr: str) -> Iterator[tuple[Module, ast.Attribute]]:
        if self._attr is None:
            self._attr = {}
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                        self._attr.setdefault(n.attr, []).append((m, n))
        fam: set[str] = set()
        for c in classes:
            fam |= set(self.p.mro(c)) | self.p.subtypes(c)
        for m, n in self._attr.get(attr, []):
            k = self.p.classes_of(m, n.value)
            if not k or not classes or k & fam:
                yield m, n

    def ok(self, n: ast.AST) -> bool:
        return self.within is None or n in self.within or not isinstance(n, (ast.Name, ast.Attribute, ast.Call, ast.Constant, ast.IfExp))

    # ---------------------------------------------------------------- flow
    def uses(self, mod: Module, node: ast.AST) -> list[Use]:
        out: list[Use] = []
        seen: set[tuple[ast.AST, str]] = set()
        self.visited = seen
        todo: list[tuple[Module, ast.AST, str]] = [(mod, node, "v")]  # mode v: the value, c: a container holding it
        while todo:
            m, n, mode = todo.pop()
            if (n, mode) in seen or len(seen) > 4000:
                continue
            seen.add((n, mode))
            if not self.ok(n):
                continue
            for x in self.step(m, n, mode):
                if isinstance(x, Use):
                    out.append(x)
                else:
                    todo.append(x)
        return out

    def step(self, m: Module, n: ast.AST, mode: str) -> Iterator:
        p = self.p
        par = p.parent_of.get(n)
        if par is None:
            return
        if isinstance(par, ast.Expr):
            yield Use("drop", par, m)
        elif isinstance(par, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            if n is getattr(par, "value", None):
                tg = par.targets if isinstance(par, ast.Assign) else [par.target]
                for t in tg:
                    yield from self.bind(m, t, mode)
                if isinstance(par, ast.NamedExpr):
                    yield (m, par, mode)
            elif isinstance(par, ast.AnnAssign):
                return
        elif isinstance(par, ast.AugAssign):
            yield from self.bind(m, par.target, mode)
        elif isinstance(par, ast.Return):
            f = p.enclosing_func(par)
            yield from self.returned(f, mode)
        elif isinstance(par, ast.Lambda):
            f = p.func_of_node.get(par)
            yield Use("emit", par, m, "lambda")
        elif isinstance(par, (ast.Yield, ast.YieldFrom)):
            yield from self.returned(p.enclosing_func(par), "c")
        elif isinstance(par, ast.Compare):
            yield Use("compare", par, m)
        elif isinstance(par, (ast.If, ast.While, ast.Assert)):
            yield Use("raise" if isinstance(par, ast.Assert) and n is par.msg else "test", par, m)
        elif isinstance(par, ast.UnaryOp):
            yield Use("test", par, m) if isinstance(par.op, ast.Not) else (m, par, mode)
        elif isinstance(par, ast.Raise):
            yield Use("raise", par, m)
        elif isinstance(par, ast.IfExp):
            if n is par.test:
                yield Use("test", par, m)
            else:
                yield (m, par, mode)
        elif isinstance(par, ast.BoolOp):
            yield Use("test", par, m)
            yield (m, par, mode)
        elif isinstance(par, (ast.BinOp, ast.FormattedValue, ast.JoinedStr, ast.Starred, ast.Await)):
            if not self.concat and not isinstance(par, (ast.Starred, ast.Await)):
                yield Use("concat", par, m, n)
                return
            yield (m, par, mode)
        elif isinstance(par, (ast.List, ast.Tuple, ast.Set)):
            if isinstance(p.parent_of.get(par), ast.Compare):
                yield Use("compare", par, m)
            else:
                yield (m, par, "c")
        elif isinstance(par, ast.Dict):
            if any(n is k for k in par.keys):
                yield Use("key", par, m)
            else:
                yield (m, par, "c")
        elif isinstance(par, ast.Subscript):
            if n is par.slice:
                yield Use("key", par, m)
            else:
                yield (m, par, "v")
        elif isinstance(par, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            yield (m, par, "c")
        elif isinstance(par, ast.DictComp):
            yield (m, par, "c")
        elif isinstance(par, ast.comprehension):
            if n is par.iter:
                yield from self.bind(m, par.target, "v")
            else:
                yield Use("test", par, m)
        elif isinstance(par, (ast.For, ast.AsyncFor)):
            yield from self.bind(m, par.target, "v")
        elif isinstance(par, ast.Attribute):
            g = p.parent_of.get(par)
            if isinstance(g, ast.Call) and g.func is par:
                if par.attr in TEXT:
                    yield (m, g, "c" if par.attr in ("split", "splitlines", "rsplit", "partition", "rpartition") else "v")
                elif par.attr in SEARCH:
                    yield Use("subject", g, m, par.attr)
                elif mode == "c" and par.attr in CONT_METHODS:
                    yield (m, g, "v" if par.attr in ("get", "pop") else "c")
                else:
                    yield Use("method", g, m, par.attr)
            else:
                yield Use("attribute", par, m, par.attr)
        elif isinstance(par, ast.keyword):
            call = p.parent_of.get(par)
            if isinstance(call, ast.Call):
                yield from self.argument(m, call, n, par.arg, mode)
        elif isinstance(par, ast.Call):
            if n is par.func:
                yield Use("called", par, m)
            else:
                yield from self.argument(m, par, n, None, mode)
        elif isinstance(par, ast.withitem):
            yield Use("emit", par, m)
        elif isinstance(par, ast.arguments):
            f = p.func_of_node.get(p.parent_of.get(par))  # type: ignore
            if f is not None:
                a = f.node.args  # type: ignore
                pos = [x.arg for x in a.posonlyargs + a.args]
                nm = None
                for k, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
                    if d is n:
                        nm = k
                for k2, d2 in zip(a.kwonlyargs, a.kw_defaults):
                    if d2 is n:
                        nm = k2.arg
                if nm:
                    for x in self.loads(f, nm):
                        yield (f.module, x, mode)
        elif isinstance(par, (ast.Delete, ast.Slice, ast.match_case)):
            return
        else:
            yield Use("emit", par, m, type(par).__name__)

    def bind(self, m: Module, t: ast.AST, mode: str) -> Iterator:
        if isinstance(t, ast.Name):
            f = self.p.enclosing_func(t)
            if f is None:
                # module or class level name
                cl = self.p.parent_of.get(self.p.parent_of.get(t))  # type: ignore
                if isinstance(cl, ast.ClassDef):
                    full = next((c.full for c in self.p.classes.values() if c.node is cl), None)
                    if full:
                        for m2, x in self.attr_loads({full}, t.id):
                            yield (m2, x, mode)
                    return
                for m2 in self.p.modules.values():
                    for x in ast.walk(m2.tree):
                        if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load) and (m2 is m or self.p.imports(m2).get(t.id) == f"{m.name}.{t.id}"):
                            yield (m2, x, mode)
                        elif isinstance(x, ast.Attribute) and x.attr == t.id and self.p.full_name(m2, x) == f"{m.name}.{t.id}":
                            yield (m2, x, mode)
                return
            g: Optional[Func] = f
            for x in self.loads(f, t.id):
                yield (m, x, mode)
        elif isinstance(t, ast.Attribute):
            if not self.follow_attrs:
                yield Use("stored", t, m, t.attr)
                return
            cl2 = self.p.classes_of(m, t.value)
            any_load = False
            for m2, x in self.attr_loads(cl2, t.attr):
                any_load = True
                yield (m2, x, mode)
            if not cl2 and not any_load:
                yield Use("emit", t, m, "slot of a template")
            elif not cl2 or not any(c in self.p.classes for c in cl2):
                yield Use("emit", t, m, "slot of a template")
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                yield from self.bind(m, x, "v")
        elif isinstance(t, ast.Starred):
            yield from self.bind(m, t.value, mode)
        elif isinstance(t, ast.Subscript):
            yield from self.container(m, t.value)

    def container(self, m: Module, c: ast.AST) -> Iterator:
        """a value is stored in the container c"""
        if isinstance(c, ast.Name):
            f = self.p.enclosing_func(c)
            if f is not None:
                for x in self.loads(f, c.id):
                    if x is not c:
                        yield (m, x, "c")
                return
        if isinstance(c, ast.Attribute):
            cl = self.p.classes_of(m, c.value)
            for m2, x in self.attr_loads(cl, c.attr):
                if x is not c:
                    yield (m2, x, "c")
            return
        yield Use("emit", c, m, "container")

    def returned(self, f: Optional[Func], mode: str) -> Iterator:
        if f is None:
            return
        sites = self.p.call_sites().get(f.qual, [])
        n = 0
        for _cf, m, call in sites:
            n += 1
            yield (m, call, mode)
        if f.is_property and f.cls is not None:
            for m2, x in self.attr_loads({f.cls.full}, f.name):
                n += 1
                yield (m2, x, mode)
        if n == 0:
            yield Use("emit", f.node, f.module, f"returned by {f.name}")
        # calls through a base class
        if f.cls is not None:
            for b in self.p.mro(f.cls.full)[1:]:
                if b in self.p.classes and f.name in self.p.classes[b].methods:
                    for _cf, m, call in self.p.call_sites().get(self.p.classes[b].methods[f.name].qual, []):
                        yield (m, call, mode)

    def argument(self, m: Module, call: ast.Call, n: ast.AST, kw: Optional[str], mode: str) -> Iterator:
        p = self.p
        fs, ext = p.callees(m, call)
        pos = next((i for i, a in enumerate(call.args) if a is n), None)
        if fs:
            for g in fs:
                if g.name in self.stop:
                    yield Use("passed", call, m, (g.name, kw if kw is not None else pos))
                    continue
                nm = kw
                if nm is None and pos is not None:
                    a = g.node.args  # type: ignore
                    names = [x.arg for x in a.posonlyargs + a.args]
                    if g.cls is not None and not g.is_static and names:
                        if p.constructed_class(m, call) or not (isinstance(call.func, ast.Attribute) and not p.classes_of(m, call.func.value) and not g.is_classmethod):
                            names = names[1:]
                    nm = names[pos] if pos < len(names) else (a.vararg.arg if a.vararg else None)
                if nm is None or nm not in g.params:
                    yield Use("emit", call, m, f"argument of {g.name}")
                else:
                    for x in self.loads(g, nm):
                        yield (g.module, x, mode)
            return
        ctor = p.constructed_class(m, call)
        if ctor and ctor in p.classes:
            cls = p.classes[ctor]
            flds = [s.target.id for s in cls.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            nm = kw if kw is not None else (flds[pos] if pos is not None and pos < len(flds) else None)
            if nm:
                for m2, x in self.attr_loads({ctor}, nm):
                    yield (m2, x, mode)
                return
        full = p.full_name(m, call.func) or ext
        if full.startswith("builtins."):
            full = full[9:]
        if full in REGEX and pos == 0:
            yield Use("pattern", call, m, full)
            if full in ("re.escape",):
                yield (m, call, "v")
            return
        if full in REGEX:
            yield (m, call, "v")
            return
        if full in LOG or full.startswith("logging."):
            yield Use("log", call, m)
            return
        if full in ("isinstance", "len", "hasattr", "callable", "bool", "any", "all", "type", "id", "hash"):
            yield Use("inspect", call, m, full)
            return
        if full in ("str", "repr", "list", "tuple", "sorted", "reversed", "set", "copy.copy", "copy.deepcopy", "enumerate", "zip", "iter", "next", "cast", "typing.cast", "max", "min"):
            yield (m, call, mode)
            return
        if ctor and any(b.split(".")[-1] in ("Exception", "BaseException") or b.endswith("Error") for b in p.mro(ctor)):
            yield Use("raise", call, m)
            return
        par = p.parent_of.get(call)
        if isinstance(par, ast.Raise):
            yield Use("raise", call, m)
            return
        if isinstance(call.func, ast.Attribute):
            a2 = call.func.attr
            if a2 == "replace":
                if pos == 0:
                    yield Use("pattern", call, m, "replace")
                else:
                    yield (m, call, "v")
                return
            if a2 in SEARCH:
                yield Use("pattern", call, m, a2)
                return
            if a2 in ("append", "add", "insert", "extend", "update", "setdefault", "appendleft"):
                yield from self.container(m, call.func.value)
                return
            if a2 == "join":
                yield (m, call, "v")
                return
            if a2 in ("get", "pop"):
                if pos == 0:
                    yield Use("key", call, m)
                else:
                    yield (m, call, "v")
                return
        yield Use("extern", call, m, full or ast.unparse(call.func))
