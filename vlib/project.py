"""Loads /repo/src (test code excluded), type-checks it with mypy used as a library, and exposes
the *resolved* program: functions, classes, MRO, expression types and call targets.

Nothing of /repo is imported or executed: the sources are parsed (ast) and type-checked (mypy)."""
from __future__ import annotations

import ast
import os
import pathlib
from dataclasses import dataclass, field
from typing import Iterator, Optional

from vlib.inline import inline
from vlib.normal import normalise

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
SRC_REL = "src"

EXCLUDED_PARTS = {"tests", "integration_tests", "sandbox", "bindings", "srcML", "__pycache__"}


class AnalysisError(Exception):
    """The analysis itself cannot be trusted (vanished anchor, unparsable source...)"""


@dataclass
class Module:
    name: str
    path: pathlib.Path
    rel: str
    source: str
    tree: ast.Module
    lines: list[str]


@dataclass(eq=False)
class Func:
    qual: str  # module.Class.func
    name: str
    module: Module
    cls: Optional["Cls"]
    node: ast.AST  # FunctionDef | AsyncFunctionDef | Lambda
    parent: Optional["Func"] = None
    decorators: list[str] = field(default_factory=list)
    _params: Optional[list[str]] = None

    @property
    def params(self) -> list[str]:
        if self._params is None:
            a = self.node.args  # type: ignore
            self._params = [x.arg for x in a.posonlyargs + a.args]
            if a.vararg:
                self._params.append(a.vararg.arg)
            self._params += [x.arg for x in a.kwonlyargs]
            if a.kwarg:
                self._params.append(a.kwarg.arg)
        return self._params

    @property
    def is_static(self) -> bool:
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self) -> bool:
        return "classmethod" in self.decorators

    @property
    def is_property(self) -> bool:
        return any(d in ("property", "cached_property", "functools.cached_property") or d.endswith(".setter") for d in self.decorators)

    @property
    def is_abstract(self) -> bool:
        return any(d.split(".")[-1] == "abstractmethod" for d in self.decorators)

    @property
    def body(self) -> list[ast.stmt]:
        if isinstance(self.node, ast.Lambda):
            r = ast.Return(value=self.node.body)
            ast.copy_location(r, self.node.body)
            return [r]
        return self.node.body  # type: ignore

    def loc(self, node: Optional[ast.AST] = None) -> str:
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return f"{self.module.rel}:{n.lineno}"  # type: ignore

    def __repr__(self) -> str:
        return f"<Func {self.qual}>"


@dataclass(eq=False)
class Cls:
    full: str
    name: str
    module: Module
    node: ast.ClassDef
    bases: list[str] = field(default_factory=list)
    methods: dict[str, Func] = field(default_factory=dict)
    subclasses: list["Cls"] = field(default_factory=list)

    def __repr__(self) -> str:
        return f"<Cls {self.full}>"


def dotted(node: ast.AST) -> str:
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return f"{b}.{node.attr}" if b else ""
    if isinstance(node, ast.Call):
        return dotted(node.func)
    return ""


class Project:
    def __init__(self, repo: pathlib.Path = REPO, overrides: Optional[dict[str, str]] = None, types: bool = True):
        self.repo = repo
        self.src = repo / SRC_REL
        self.overrides = overrides or {}
        self.modules: dict[str, Module] = {}
        self.funcs: dict[str, Func] = {}
        self.classes: dict[str, Cls] = {}
        self.func_of_node: dict[ast.AST, Func] = {}
        self.parent_of: dict[ast.AST, ast.AST] = {}
        self._types: dict[str, dict[tuple, object]] = {}
        self._nodes: dict[str, dict[tuple, object]] = {}
        self.mypy_errors: list[str] = []
        self._c_classes: dict = {}
        self._c_callees: dict = {}
        self._c_mro: dict = {}
        self._c_targets: dict = {}
        self._load()
        if types:
            self._typecheck()

    # ------------------------------------------------------------------ loading
    def _load(self) -> None:
        if not self.src.is_dir():
            raise AnalysisError(f"no source directory {self.src}")
        for p in sorted(self.src.rglob("*.py")):
            rel = p.relative_to(self.src)
            if set(rel.parts[:-1]) & EXCLUDED_PARTS:
                continue
            name = ".".join(rel.parts)[: -len(".py")]
            if name.endswith(".__init__"):
                name = name[: -len(".__init__")]
            relrepo = str(p.relative_to(self.repo))
            if relrepo in self.overrides:
                source = self.overrides[relrepo]
            else:
                source = p.read_text(encoding="utf-8")
            try:
                inlined = inline(source, str(rel))
                source = normalise(inline(normalise(source), str(rel)) if inlined is not source else source)
                tree = ast.parse(source, filename=str(p))
            except SyntaxError as e:
                raise AnalysisError(f"cannot parse {relrepo}: {e}")
            m = Module(name, p, relrepo, source, tree, source.splitlines())
            self.modules[name] = m
        if len(self.modules) < 60:
            raise AnalysisError(f"only {len(self.modules)} modules found under {self.src}")
        for m in self.modules.values():
            self._index(m)
        self._link_classes()

    def _index(self, m: Module) -> None:
        def walk(node: ast.AST, prefix: str, cls: Optional[Cls], parent: Optional[Func]) -> None:
            for child in ast.iter_child_nodes(node):
                self.parent_of[child] = node
                if isinstance(child, ast.ClassDef):
                    c = Cls(f"{prefix}.{child.name}", child.name, m, child)
                    self.classes[c.full] = c
                    walk(child, c.full, c, parent)
                elif isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = f"{prefix}.{child.name}"
                    decos = [dotted(d) for d in child.decorator_list]
                    incls = cls if isinstance(node, ast.ClassDef) else None
                    # a property setter / overload must not hide the getter
                    key = q
                    if any(d.endswith(".setter") for d in decos):
                        key = q + "@setter"
                    n = 2
                    while key in self.funcs:
                        key = f"{q}#{n}"
                        n += 1
                    f = Func(key, child.name, m, incls, child, parent, decos)
                    self.funcs[key] = f
                    self.func_of_node[child] = f
                    if incls is not None:
                        if not key.endswith("@setter"):
                            incls.methods[child.name] = f
                    walk(child, key, None, f)
                elif isinstance(child, ast.Lambda):
                    key = f"{prefix}.<lambda@{child.lineno}:{child.col_offset}>"
                    f = Func(key, "<lambda>", m, None, child, parent)
                    self.funcs[key] = f
                    self.func_of_node[child] = f
                    walk(child, key, None, f)
                else:
                    walk(child, prefix, cls, parent)

        walk(m.tree, m.name, None, None)

    def _link_classes(self) -> None:
        # bases are linked by mypy when available; here by simple name (class names are unique enough)
        byname: dict[str, list[Cls]] = {}
        for c in self.classes.values():
            byname.setdefault(c.name, []).append(c)
        self.cls_by_name = byname
        for c in self.classes.values():
            for b in c.node.bases:
                d = dotted(b).split(".")[-1]
                cands = byname.get(d, [])
                if cands:
                    c.bases.append(cands[0].full)
                    cands[0].subclasses.append(c)
                else:
                    c.bases.append(dotted(b))

    # ------------------------------------------------------------------ typing
    def _typecheck(self) -> None:
        from mypy import build
        from mypy.modulefinder import BuildSource
        from mypy.options import Options
        from mypy import nodes as N

        o = Options()
        o.export_types = True
        o.preserve_asts = True
        o.incremental = False
        o.check_untyped_defs = True
        o.ignore_missing_imports = True
        o.python_version = (3, 12)
        o.cache_dir = os.devnull
        o.mypy_path = [str(self.src)]
        o.namespace_packages = True
        o.follow_imports = "silent"
        o.show_column_numbers = True
        o.hide_error_codes = False
        o.enable_error_code = ["possibly-undefined"]
        try:
            from mypy.errorcodes import error_codes
            o.enabled_error_codes = {error_codes["possibly-undefined"]}
        except Exception:
            pass
        cwd = os.getcwd()
        os.chdir("/")
        try:
            sources = []
            for m in self.modules.values():
                text = m.source
                sources.append(BuildSource(str(m.path), m.name, text))
            r = build.build(sources, o)
        except build.CompileError as e:  # pragma: no cover
            raise AnalysisError("mypy cannot analyse the sources: " + "; ".join(e.messages[:5]))
        finally:
            os.chdir(cwd)
        self.mypy_errors = list(r.errors)
        types = r.types
        skip = {"node", "info", "type", "unanalyzed_type", "original_def", "names", "var", "expanded", "imports",
                "metaclass", "line", "column", "end_line", "end_column", "fullname", "name", "alias_deps", "path",
                "plugin_deps", "type_args", "deps", "def_var", "removed_base_type_exprs", "type_vars", "future_import_flags"}
        attr_cache: dict[type, list[str]] = {}

        def attrs_of(cls: type) -> list[str]:
            r = attr_cache.get(cls)
            if r is None:
                r = []
                for k in cls.__mro__:
                    for a in k.__dict__.get("__mypyc_attrs__", ()):
                        if a not in skip and not a.startswith("_") and a not in r:
                            r.append(a)
                attr_cache[cls] = r
            return r

        def collect(tree, tdict: dict, ndict: dict) -> None:
            seen: set[int] = set()
            todo = list(tree.defs)
            keep = []
            while todo:
                o = todo.pop()
                if isinstance(o, (list, tuple)):
                    todo.extend(o)
                    continue
                if not isinstance(o, N.Node) or isinstance(o, (N.TypeInfo, N.MypyFile, N.Var)):
                    continue
                if id(o) in seen:
                    continue
                seen.add(id(o))
                keep.append(o)
                if isinstance(o, N.Expression) and o.line is not None and o.line >= 0 and o.end_line is not None:
                    kind = KINDS.get(type(o).__name__)
                    if kind is not None:
                        key = (o.line, o.column, o.end_line, o.end_column, kind)
                        t = types.get(o)
                        if t is not None:
                            tdict.setdefault(key, t)
                        if isinstance(o, (N.NameExpr, N.MemberExpr)):
                            ndict.setdefault(key, o)
                for a in attrs_of(type(o)):
                    try:
                        v = getattr(o, a)
                    except AttributeError:
                        continue
                    if isinstance(v, (list, tuple, N.Node)):
                        todo.append(v)

        for name, m in self.modules.items():
            st = r.graph.get(name)
            if st is None or st.tree is None:
                continue
            td: dict = {}
            nd: dict = {}
            collect(st.tree, td, nd)
            self._types[name] = td
            self._nodes[name] = nd
        n = sum(len(x) for x in self._types.values())
        if n < 10000:
            raise AnalysisError(f"type information missing ({n} typed expressions)")
        self.n_typed = n

    def _key(self, node: ast.AST) -> Optional[tuple]:
        kind = AST_KINDS.get(type(node).__name__, "o")
        if not hasattr(node, "lineno"):
            return None
        return (node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, kind)  # type: ignore

    def mtype(self, mod: Module, node: ast.AST):
        """mypy type of an expression, or None"""
        k = self._key(node)
        if k is None:
            return None
        t = self._types.get(mod.name, {}).get(k)
        if t is None and isinstance(node, (ast.Name, ast.Attribute)):
            e = self._nodes.get(mod.name, {}).get(k)
            if e is not None:
                nn = getattr(e, "node", None)
                t = getattr(nn, "type", None)
        return t

    def mnode(self, mod: Module, node: ast.AST):
        """mypy NameExpr/MemberExpr of an ast Name/Attribute"""
        k = self._key(node)
        return self._nodes.get(mod.name, {}).get(k) if k else None

    def classes_of(self, mod: Module, node: ast.AST) -> set[str]:
        """Full names of the classes the expression may be an instance of ({} if unknown)."""
        r = self._c_classes.get(node)
        if r is None:
            r = type_classes(self.mtype(mod, node))
            self._c_classes[node] = r
        return r

    def subtypes(self, full: str) -> set[str]:
        out = set()
        todo = [full]
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.add(c)
            if c in self.classes:
                todo += [s.full for s in self.classes[c].subclasses]
        return out

    def mro(self, full: str) -> list[str]:
        if full in self._c_mro:
            return self._c_mro[full]
        out: list[str] = []
        self._c_mro[full] = out

        def rec(c: str) -> None:
            if c in out:
                return
            out.append(c)
            if c in self.classes:
                for b in self.classes[c].bases:
                    rec(b)

        rec(full)
        return out

    def is_subclass(self, full: str, base_simple_name: str) -> bool:
        return any(c.split(".")[-1] == base_simple_name for c in self.mro(full))

    def find_method(self, full: str, name: str) -> Optional[Func]:
        for c in self.mro(full):
            if c in self.classes and name in self.classes[c].methods:
                return self.classes[c].methods[name]
        return None

    def method_targets(self, full: str, name: str) -> list[Func]:
        """Possible targets of obj.name() where obj: full (virtual dispatch included)"""
        if (full, name) in self._c_targets:
            return self._c_targets[(full, name)]
        out: list[Func] = []
        self._c_targets[(full, name)] = out
        base = self.find_method(full, name)
        if base is not None:
            out.append(base)
        for s in sorted(self.subtypes(full)):
            if s in self.classes and name in self.classes[s].methods:
                f = self.classes[s].methods[name]
                if f not in out:
                    out.append(f)
        return out

    # ------------------------------------------------------------------ call resolution
    def callees(self, fn_mod: Module, call: ast.Call) -> tuple[list[Func], str]:
        """(project functions possibly called, dotted external name or '' )"""
        r = self._c_callees.get(call)
        if r is None:
            r = self.resolve_callable(fn_mod, call.func)
            self._c_callees[call] = r
        return r

    def resolve_callable(self, mod: Module, f: ast.AST) -> tuple[list[Func], str]:
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == "super":
            return [], "super"
        if isinstance(f, ast.Name):
            e = self.mnode(mod, f)
            full = getattr(e, "fullname", "") if e is not None else ""
            n = getattr(e, "node", None) if e is not None else None
            r = self._by_fullname(full)
            if r:
                return r, ""
            # nested function?
            if n is not None and type(n).__name__ in ("FuncDef", "Decorator"):
                for q, fi in self.funcs.items():
                    if fi.module is mod and fi.name == f.id and fi.parent is not None and fi.node.lineno == n.line:
                        return [fi], ""
                for q, fi in self.funcs.items():
                    if fi.module is mod and fi.name == f.id and fi.parent is not None:
                        return [fi], ""
            if full:
                return [], full
            return [], f.id
        if isinstance(f, ast.Attribute):
            # super().m()
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                fi = self.enclosing_func(f)
                while fi is not None and fi.cls is None:
                    fi = fi.parent
                if fi is not None and fi.cls is not None:
                    for b in self.mro(fi.cls.full)[1:]:
                        if b in self.classes and f.attr in self.classes[b].methods:
                            return [self.classes[b].methods[f.attr]], ""
                return [], "super." + f.attr
            e = self.mnode(mod, f)
            full = getattr(e, "fullname", "") if e is not None else ""
            r = self._by_fullname(full)
            if r:
                # explicit Class.method(...) call: no virtual dispatch
                return r, ""
            t = self.mtype(mod, f.value)
            cls = type_classes(t)
            out: list[Func] = []
            for c in sorted(cls):
                for x in self.method_targets(c, f.attr):
                    if x not in out:
                        out.append(x)
            if out:
                return out, ""
            if cls:
                return [], sorted(cls)[0] + "." + f.attr
            # class object: Type[X]
            ct = type_object_class(t)
            if ct:
                r2 = self.find_method(ct, f.attr)
                if r2:
                    return [r2], ""
                return [], ct + "." + f.attr
            if full:
                return [], full
            d = dotted(f)
            return [], d or ("?." + f.attr)
        return [], ""

    def _by_fullname(self, full: str) -> list[Func]:
        if not full:
            return []
        if full in self.funcs:
            return [self.funcs[full]]
        if full in self.classes:
            init = self.find_method(full, "__init__")
            post = self.find_method(full, "__post_init__")
            return [x for x in (init, post) if x is not None]
        return []

    def constructed_class(self, mod: Module, call: ast.Call) -> Optional[str]:
        """Full name of the project or library class constructed by the call, if any"""
        e = self.mnode(mod, call.func) if isinstance(call.func, (ast.Name, ast.Attribute)) else None
        if e is None:
            return None
        n = getattr(e, "node", None)
        if n is not None and type(n).__name__ == "TypeInfo":
            return n.fullname
        return None

    def enclosing_func(self, node: ast.AST) -> Optional[Func]:
        n: Optional[ast.AST] = node
        while n is not None:
            n = self.parent_of.get(n)
            if n is not None and n in self.func_of_node:
                return self.func_of_node[n]
        return None

    def imports(self, mod: Module) -> dict[str, str]:
        """local name -> full dotted name, for everything imported anywhere in the module"""
        c = self.__dict__.setdefault("_c_imports", {})
        r = c.get(mod.name)
        if r is None:
            r = c[mod.name] = {}
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            r[a.asname] = a.name
                        else:
                            r[a.name.split(".")[0]] = a.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom):
                    base = self.import_base(mod, n)
                    for a in n.names:
                        r[a.asname or a.name] = f"{base}.{a.name}" if base else a.name
        return r

    def import_base(self, mod: Module, n: ast.ImportFrom) -> str:
        if not n.level:
            return n.module or ""
        parts = mod.name.split(".")
        is_pkg = mod.path.name == "__init__.py"
        keep = len(parts) - n.level + (1 if is_pkg else 0)
        return ".".join(parts[:max(keep, 0)] + ([n.module] if n.module else []))

    def full_name(self, mod: Module, node: ast.AST) -> str:
        """dotted name with the imports resolved ('' when the expression is not a dotted name)"""
        d = dotted(node) if not isinstance(node, ast.Call) else ""
        if not d:
            return ""
        head, _, rest = d.partition(".")
        base = self.imports(mod).get(head, head)
        return f"{base}.{rest}" if rest else base

    def own_nodes(self, f: Func) -> list[ast.AST]:
        """the nodes of a function, those of its nested functions left out"""
        c = self.__dict__.setdefault("_c_own", {})
        r = c.get(f)
        if r is None:
            r = []
            todo: list[ast.AST] = list(f.node.body) if not isinstance(f.node, ast.Lambda) else [f.node.body]  # type: ignore
            while todo:
                n = todo.pop(0)
                r.append(n)
                if n in self.func_of_node:
                    continue
                for x in ast.iter_child_nodes(n):
                    if x in self.func_of_node:
                        r.append(x)
                        continue
                    todo.append(x)
            c[f] = r
        return r

    def call_sites(self) -> dict[str, list[tuple[Optional[Func], Module, ast.Call]]]:
        """callee -> [(calling function or None, module, call)]"""
        c = self.__dict__.get("_c_sites")
        if c is None:
            c = self.__dict__["_c_sites"] = {}
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call):
                        for t in self.callees(m, n)[0]:
                            c.setdefault(t.qual, []).append((self.enclosing_func(n), m, n))
        return c

    def callers_of(self, f: Func) -> list[Optional[Func]]:
        return [x[0] for x in self.call_sites().get(f.qual, [])]

    def all_funcs(self) -> Iterator[Func]:
        yield from self.funcs.values()

    def func(self, qual_suffix: str) -> Func:
        """The unique function whose qualified name ends with qual_suffix"""
        c = [f for q, f in self.funcs.items() if q == qual_suffix or q.endswith("." + qual_suffix)]
        if len(c) != 1:
            raise AnalysisError(f"anchor function {qual_suffix}: {len(c)} candidates")
        return c[0]

    def cls(self, name: str) -> Cls:
        c = self.cls_by_name.get(name, [])
        if len(c) != 1:
            raise AnalysisError(f"anchor class {name}: {len(c)} candidates")
        return c[0]


KINDS = {
    "NameExpr": "n", "MemberExpr": "a", "CallExpr": "c", "IndexExpr": "s", "StrExpr": "k", "IntExpr": "k",
    "FloatExpr": "k", "BytesExpr": "k", "ListExpr": "l", "TupleExpr": "t", "SetExpr": "S", "DictExpr": "d",
    "OpExpr": "b", "ComparisonExpr": "m", "UnaryExpr": "u", "ConditionalExpr": "i", "LambdaExpr": "L",
    "ListComprehension": "lc", "SetComprehension": "sc", "DictionaryComprehension": "dc", "GeneratorExpr": "g",
    "StarExpr": "*", "SliceExpr": "sl", "AssignmentExpr": "w", "SuperExpr": "a", "AwaitExpr": "aw",
}
AST_KINDS = {
    "Name": "n", "Attribute": "a", "Call": "c", "Subscript": "s", "Constant": "k", "List": "l", "Tuple": "t",
    "Set": "S", "Dict": "d", "BinOp": "b", "BoolOp": "b", "Compare": "m", "UnaryOp": "u", "IfExp": "i",
    "Lambda": "L", "ListComp": "lc", "SetComp": "sc", "DictComp": "dc", "GeneratorExp": "g", "Starred": "*",
    "NamedExpr": "w", "JoinedStr": "j",
}


def type_classes(t) -> set[str]:
    """flatten a mypy type into the set of instance class full names"""
    if t is None:
        return set()
    from mypy.types import get_proper_type
    t = get_proper_type(t)
    k = type(t).__name__
    if k == "Instance":
        return {t.type.fullname}
    if k == "UnionType":
        out: set[str] = set()
        for i in t.items:
            out |= type_classes(i)
        return out
    if k == "TupleType":
        return {"builtins.tuple"}
    if k == "LiteralType":
        return type_classes(t.fallback)
    if k == "TypeVarType":
        return type_classes(t.upper_bound)
    if k == "NoneType":
        return {"None"}
    return set()


def type_object_class(t) -> Optional[str]:
    if t is None:
        return None
    from mypy.types import get_proper_type
    t = get_proper_type(t)
    k = type(t).__name__
    if k == "TypeType":
        c = type_classes(t.item)
        return sorted(c)[0] if c else None
    if k == "CallableType" and t.is_type_obj():
        return t.type_object().fullname
    return None


def type_is_optional(t) -> bool:
    return "None" in type_classes(t)


def type_args(t) -> list:
    from mypy.types import get_proper_type
    if t is None:
        return []
    t = get_proper_type(t)
    if type(t).__name__ == "Instance":
        return list(t.args)
    if type(t).__name__ == "UnionType":
        out = []
        for i in t.items:
            out += type_args(i)
        return out
    if type(t).__name__ == "TupleType":
        return list(t.items)
    return []
