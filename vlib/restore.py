"""Save / change / restore analysis of the objects that outlive a call.

For a function, finds every location (an attribute or item of something, or a piece of process state)
which is changed, and decides by abstract execution over every way out of the function (falling
through, return, break, exception) whether its previous value has been put back."""
from __future__ import annotations

import ast
from typing import Iterable, Optional

from .project import Func, Project, dotted
from .sx import Domain, Exec


def loc_text(n: ast.AST, alias: dict[str, ast.expr], depth: int = 0) -> Optional[str]:
    """canonical text of a location; local names which are plain aliases are expanded"""
    if isinstance(n, ast.Name):
        if n.id in alias and depth < 5:
            return loc_text(alias[n.id], alias, depth + 1)
        return n.id
    if isinstance(n, ast.Attribute):
        b = loc_text(n.value, alias, depth)
        return None if b is None else f"{b}.{n.attr}"
    if isinstance(n, ast.Subscript):
        b = loc_text(n.value, alias, depth)
        return None if b is None else f"{b}[{ast.unparse(n.slice)}]"
    if isinstance(n, ast.Call) and not n.keywords and len(n.args) == 0:
        # accessor without argument: self.cpp_element()
        b = loc_text(n.func, alias, depth)
        return None if b is None else f"{b}()"
    return None


def aliases(f: Func) -> dict[str, ast.expr]:
    """local names assigned exactly once, from an attribute chain or an accessor call"""
    count: dict[str, int] = {}
    val: dict[str, ast.expr] = {}
    for x in ast.walk(f.node):
        tg: list = []
        if isinstance(x, ast.Assign):
            tg = x.targets
            for t in tg:
                if isinstance(t, ast.Name):
                    val[t.id] = x.value
        elif isinstance(x, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)):
            tg = [x.target]
            if isinstance(x.target, ast.Name) and getattr(x, "value", None) is not None:
                val[x.target.id] = x.value  # type: ignore
        elif isinstance(x, (ast.For, ast.comprehension)):
            tg = [x.target]
        elif isinstance(x, ast.withitem) and x.optional_vars is not None:
            tg = [x.optional_vars]
        for t in tg:
            for n in ast.walk(t):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    count[n.id] = count.get(n.id, 0) + 1
    return {k: v for k, v in val.items() if count.get(k) == 1 and k not in f.params
            and isinstance(v, (ast.Attribute, ast.Call, ast.Name)) and loc_text(v, {}) is not None and "." in (loc_text(v, {}) or "")}


COPIES = {"copy", "deepcopy", "list", "dict", "set", "str"}
PROCESS_SETTERS = {"os.chdir": "cwd", "logging.disable": "logging.disable", "socket.setdefaulttimeout": "socket timeout",
                   "sys.setrecursionlimit": "recursion limit", "os.umask": "umask", "locale.setlocale": "locale", "random.seed": "random state"}
PROCESS_GETTERS = {"os.getcwd": "cwd", "pathlib.Path.cwd": "cwd", "Path.cwd": "cwd", "sys.getrecursionlimit": "recursion limit",
                   "os.getcwdb": "cwd", "locale.getlocale": "locale", "random.getstate": "random state"}


class RestoreDomain(Domain):
    """state: frozenset of ('saved', var, loc) and ('mod', loc, site)"""

    def __init__(self, p: Project, f: Func):
        self.p = p
        self.f = f
        self.alias = aliases(f)
        self.nested: dict[str, ast.FunctionDef] = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.FunctionDef) and n is not f.node:
                self.nested[n.name] = n
        # a variable which keeps a previous value is not an alias of the location
        self.site_nodes: dict[int, ast.AST] = {}
        self.restored_vars: set[tuple[str, str]] = set()
        self.saves: set[tuple[str, str]] = set()
        self.mods: dict[tuple[str, int], ast.AST] = {}
        savedvars = self._save_vars()
        for v in savedvars:
            self.alias.pop(v, None)

    def _save_vars(self) -> set[str]:
        """variables which are assigned back to the location they were read from"""
        read: dict[str, set[str]] = {}
        out: set[str] = set()
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Assign):
                for t, v in _pairs(n):
                    if isinstance(t, ast.Name):
                        l = self._value_loc(v)
                        if l:
                            read.setdefault(t.id, set()).add(l)
        for n in ast.walk(self.f.node):
            for l, v in self._writes_of(n):
                if isinstance(v, ast.Name) and l in read.get(v.id, ()):
                    out.add(v.id)
                # with aliases not expanded, the texts may differ by the alias: compare the last field
        return out

    def _value_loc(self, v: ast.AST) -> Optional[str]:
        while isinstance(v, ast.Call) and dotted(v.func).split(".")[-1] in COPIES and len(v.args) == 1:
            v = v.args[0]
        if isinstance(v, ast.Call):
            d = dotted(v.func)
            if d in PROCESS_GETTERS:
                return "<process>." + PROCESS_GETTERS[d]
            if d.split(".")[-1] == "getattr" and len(v.args) >= 2 and isinstance(v.args[1], ast.Constant):
                b = loc_text(v.args[0], self.alias)
                return f"{b}.{v.args[1].value}" if b else None
            if isinstance(v.func, ast.Attribute) and v.func.attr == "getEffectiveLevel":
                return "<process>.logging level"
            if isinstance(v.func, ast.Attribute) and v.func.attr in ("get",) and v.args:
                b = loc_text(v.func.value, self.alias)
                return f"{b}[{ast.unparse(v.args[0])}]" if b else None
        if isinstance(v, ast.Attribute) and v.attr == "level":
            return "<process>.logging level"
        if isinstance(v, (ast.Attribute, ast.Subscript)):
            return loc_text(v, self.alias)
        return None

    def _writes_of(self, n: ast.AST) -> list[tuple[str, Optional[ast.expr]]]:
        out: list = []
        if isinstance(n, ast.Assign):
            for t, v in _pairs(n):
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    l = loc_text(t, self.alias)
                    if l:
                        out.append((l, v))
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, (ast.Attribute, ast.Subscript)):
            l = loc_text(n.target, self.alias)
            if l:
                out.append((l, None))
        elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, (ast.Attribute, ast.Subscript)):
            l = loc_text(n.target, self.alias)
            if l:
                out.append((l, n.value))
        elif isinstance(n, ast.Call):
            d = dotted(n.func)
            if d in ("setattr", "builtins.setattr") and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                b = loc_text(n.args[0], self.alias)
                if b:
                    out.append((f"{b}.{n.args[1].value}", n.args[2]))
            elif d in PROCESS_SETTERS:
                out.append(("<process>." + PROCESS_SETTERS[d], n.args[0] if n.args else None))
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "setLevel":
                out.append(("<process>.logging level", n.args[0] if n.args else None))
        return out

    # ---- transfer
    def stmt(self, node: ast.stmt, state) -> Iterable:
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return [state]
        for n in _walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in self.nested:
                for st in self.nested[n.func.id].body:
                    for m in _walk(st):
                        state = self._apply(m, state)
        # the values are read before the writes
        for n in _walk(node):
            state = self._reads(n, state)
        for n in _walk(node):
            state = self._apply(n, state)
        return [state]

    def _reads(self, n, state):
        if isinstance(n, ast.Assign):
            for t, v in _pairs(n):
                if isinstance(t, ast.Name):
                    state = frozenset(x for x in state if not (x[0] == "saved" and x[1] == t.id))
                    l = self._value_loc(v)
                    if l is not None and not any(x[0] == "mod" and x[1] == l for x in state):
                        state = state | {("saved", t.id, l)}
                        self.saves.add((t.id, l))
        return state

    def _apply(self, n, state):
        for l, v in self._writes_of(n):
            while isinstance(v, ast.Call) and dotted(v.func).split(".")[-1] in COPIES and len(v.args) == 1:
                v = v.args[0]
            if isinstance(v, ast.Name) and ("saved", v.id, l) in state:
                state = frozenset(x for x in state if not (x[0] == "mod" and x[1] == l))
                self.restored_vars.add((v.id, l))
                self.site_nodes[n.lineno * 10000 + n.col_offset] = n
            else:
                site = n.lineno * 10000 + n.col_offset
                self.site_nodes[site] = n
                state = state | {("mod", l, site)}
        return state

    def expr(self, node, state):
        return [state]

    def bind_with(self, item, state):
        return [state]

    def may_raise(self, node) -> bool:
        for n in _walk(node):
            if isinstance(n, (ast.Call, ast.Raise, ast.Assert, ast.Await, ast.Yield, ast.YieldFrom)):
                # the restoring call itself, and the accessors without argument, are taken not to raise
                if isinstance(n, ast.Call):
                    if dotted(n.func) in PROCESS_SETTERS or dotted(n.func) in PROCESS_GETTERS or dotted(n.func).split(".")[-1] in ("setLevel", "setattr", "getattr", "copy", "deepcopy"):
                        continue
                    if not n.args and not n.keywords and isinstance(n.func, ast.Attribute) and loc_text(n, {}) is not None \
                            and not isinstance(self.p.parent_of.get(n), ast.Expr) and self._is_accessor(n):
                        continue
                return True
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                return True
        return False

    def _is_accessor(self, n: ast.Call) -> bool:
        fs, _ = self.p.callees(self.f.module, n)
        if not fs:
            return False
        for f in fs:
            body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if not all(isinstance(s, (ast.Return, ast.Assert)) for s in body):
                return False
            for s in body:
                if any(isinstance(x, ast.Call) and dotted(x.func) not in ("cast", "isinstance", "typing.cast") for x in ast.walk(s)):
                    return False
        return True


def _pairs(n: ast.Assign):
    for t in n.targets:
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
            yield from zip(t.elts, n.value.elts)
        else:
            yield t, n.value


def _walk(node):
    """walk without entering nested functions"""
    todo = [node]
    while todo:
        n = todo.pop(0)
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                todo.append(c)


class Restore:
    """result for one function"""

    def __init__(self, p: Project, f: Func):
        self.f = f
        self.dom = RestoreDomain(p, f)
        self.writes = any(True for n in ast.walk(f.node) for _ in self.dom._writes_of(n))
        self.leaks: list[tuple[str, ast.AST, str]] = []  # location, change site, way out
        self.clean: set[int] = set()  # change sites which are restored on every way out
        if not self.writes:
            return
        o = Exec(self.dom).run(f.body, [frozenset()])
        bad: dict[tuple[str, int], str] = {}
        for s in o.fall:
            for x in s:
                if x[0] == "mod":
                    bad.setdefault((x[1], x[2]), "at the end of the function")
        for n, s in o.ret:
            for x in s:
                if x[0] == "mod":
                    bad.setdefault((x[1], x[2]), f"at the return of line {n.lineno}")
        for n, s in o.exc:
            for x in s:
                if x[0] == "mod":
                    bad.setdefault((x[1], x[2]), f"when line {getattr(n, 'lineno', '?')} raises")
        for (l, site), how in sorted(bad.items()):
            self.leaks.append((l, self.dom.site_nodes[site], how))
        badsites = {s for (_, s) in bad}
        self.clean = {s for s in self.dom.site_nodes if s not in badsites}
        self.restored_locs = {l for (_, l) in self.dom.restored_vars}

    def is_clean(self, lineno: int) -> bool:
        """every change made on that line is undone on every way out (or is the undoing itself)"""
        sites = [s for s in self.dom.site_nodes if s // 10000 == lineno]
        return bool(sites) and all(s in self.clean for s in sites)


def context_manager_pair(p: Project, f: Func, location_field: str) -> bool:
    """f is the __enter__ (or __init__) of a class whose __exit__ puts back, from an attribute of self, the
    location that f changes"""
    if f.cls is None or f.name not in ("__enter__", "__init__", "__aenter__", "__exit__"):
        return False
    ex = f.cls.methods.get("__exit__")
    if ex is None:
        return False
    self_ = ex.params[0] if ex.params else "self"
    for st in ex.body:  # unconditional statements only
        for n in _walk(st):
            tg = []
            if isinstance(n, ast.Assign):
                tg = [(t, n.value) for t in n.targets]
            elif isinstance(n, ast.Call) and dotted(n.func).split(".")[-1] == "setattr" and len(n.args) == 3:
                v = n.args[2]
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == self_:
                    return True
            for t, v in tg:
                if isinstance(t, ast.Attribute) and t.attr == location_field and isinstance(v, ast.Attribute) \
                        and isinstance(v.value, ast.Name) and v.value.id == self_:
                    return True
    return False
