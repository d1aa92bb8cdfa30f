"""C13: remembered results are never stale.

A memo is a function which answers from a store (an attribute, a dictionary, an object of a keyed store class, lru_cache)
when it finds something there, and otherwise computes the answer and stores it.

(key)        each parameter on which the stored value depends (data or control) is part of the key, through a form which
             distinguishes its values; or is a flag which selects the store, with the same choice when reading and writing
(same-key)   what is read and what is written use the same key: same expression over the same versions of the variables
(store-key)  the operations of a keyed store class all derive the key in the same, lossless, way
(copy)       the remembered results of an element which depend on its content are not carried over to its copies
(forget)     a property setter forgets every memo (of every class which inherits it) whose value reads that property;
             a plain attribute read by a memo is not replaced on an existing object without forgetting the memo
(shared)     a remembered object is not modified in place by those who obtain it
(registry)   the registries of the generation context are keyed by qualified names and never drop an earlier entry
(pure)       a function under lru_cache / cache depends on its arguments only, and its result cannot be modified"""
from __future__ import annotations

import ast
from typing import Iterator, Optional

TECHNIQUE = "dependence analysis (reaching definitions, control dependence) of each memoising function against its key; effect analysis of setters, copies and aliases of the remembered values"
LEVEL_NOTE = ("Decided per function which both consults and fills a store; a memo split over several functions is only followed through the keyed store class. "
              "Dependence on the content of other elements (children of a modified element, identifiers of the unit) is not followed: the tree is modified before it is queried.")

from vlib.report import Report
from vlib.project import Func, Module, Project, dotted
from vlib.purity import Purity

LOSSY_CALLS = {"lower", "upper", "casefold", "strip", "lstrip", "rstrip", "len", "split", "rsplit", "partition", "rpartition", "replace", "title", "capitalize",
               "bool", "type", "removeprefix", "removesuffix", "basename", "stem", "min", "max", "any", "all", "pop", "splitlines", "hash", "set", "frozenset", "sorted"}
LOSSY_ATTRS = {"scope_name", "scope_type", "parent_scope", "name", "stem", "suffix"}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "reverse", "sort", "add", "update", "discard", "setdefault", "popitem", "appendleft"}
CACHES = {"functools.lru_cache", "functools.cache", "lru_cache", "cache", "functools.cached_property", "cached_property"}


# ---------------------------------------------------------------------------------------------------------------------
# Reaching definitions and path conditions of one function
# ---------------------------------------------------------------------------------------------------------------------
class Reach:
    """env[id(node)]: name -> set of definitions, for the names loaded; conds[id(stmt)]: conditions under which it runs"""

    def __init__(self, f: Func):
        self.f = f
        self.env_at: dict[int, dict[str, frozenset]] = {}
        self.conds_at: dict[int, tuple] = {}
        self.stmt_of: dict[int, ast.stmt] = {}
        self.defs: dict[int, tuple] = {}  # def id -> (kind, node, value, conds)
        self.order: dict[int, int] = {}
        self.n = 0
        env: dict[str, frozenset] = {}
        for a in f.params:
            env[a] = frozenset([("param", a)])
        self.block(f.body, env, ())

    def new_def(self, name: str, kind: str, value, conds, env) -> None:
        d = ("def", id(value), kind)
        self.defs[id(value)] = (kind, value, conds)
        env[name] = frozenset([d])

    def note(self, st: ast.AST, env: dict, conds: tuple) -> None:
        """Records the environment at the expressions of a statement (not of the statements nested in it)"""
        todo = [st]
        while todo:
            n = todo.pop()
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.stmt, ast.ExceptHandler)) and not isinstance(c, ast.ExceptHandler):
                    continue
                if isinstance(c, ast.ExceptHandler):
                    continue
                self.env_at[id(c)] = env
                self.conds_at[id(c)] = conds
                self.stmt_of[id(c)] = st  # type: ignore
                todo.append(c)
        self.env_at[id(st)] = env
        self.conds_at[id(st)] = conds
        if id(st) not in self.order:
            self.n += 1
            self.order[id(st)] = self.n

    def bind(self, t: ast.AST, kind: str, value: ast.AST, conds, env) -> None:
        if isinstance(t, ast.Name):
            self.new_def(t.id, kind, value, conds, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            pairs = list(zip(t.elts, value.elts)) if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) and kind == "assign" else [(e, value) for e in t.elts]
            for e, v in pairs:
                self.bind(e.value if isinstance(e, ast.Starred) else e, kind if len(pairs) and v is not value else "part", v, conds, env)

    @staticmethod
    def join(a: Optional[dict], b: Optional[dict]) -> Optional[dict]:
        if a is None or b is None:
            return a if b is None else b
        return {k: a.get(k, frozenset()) | b.get(k, frozenset()) for k in set(a) | set(b)}

    def block(self, body: list, env: Optional[dict], conds: tuple) -> tuple[Optional[dict], tuple]:
        for st in body:
            if env is None:
                break
            env, conds = self.stmt(st, env, conds)
        return env, conds

    def stmt(self, st: ast.stmt, env: dict, conds: tuple) -> tuple[Optional[dict], tuple]:
        env = dict(env)
        self.note(st, dict(env), conds)
        if isinstance(st, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
            return None, conds
        if isinstance(st, ast.Assign):
            for t in st.targets:
                self.bind(t, "assign", st.value, conds, env)
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            self.bind(st.target, "assign", st.value, conds, env)
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            old = env.get(st.target.id, frozenset())
            self.new_def(st.target.id, "aug", st.value, conds, env)
            env[st.target.id] |= old
        elif isinstance(st, ast.If):
            a, _ = self.block(st.body, dict(env), conds + ((st.test, True),))
            b, _ = self.block(st.orelse, dict(env), conds + ((st.test, False),))
            if a is None and b is not None:
                conds = conds + ((st.test, False),)
            elif b is None and a is not None:
                conds = conds + ((st.test, True),)
            return self.join(a, b), conds
        elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            inner = conds + (((st.test, True),) if isinstance(st, ast.While) else ((st.iter, True),))
            e1 = dict(env)
            for _ in range(2):
                if not isinstance(st, ast.While):
                    self.bind(st.target, "part", st.iter, conds, e1)
                self.note(st, dict(e1), conds)
                out, _c = self.block(st.body, dict(e1), inner)
                e1 = self.join(self.join(e1, out), env) or env
            r, _c = self.block(st.orelse, dict(e1), conds)
            return r, conds
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, "part", it.context_expr, conds, env)
            return self.block(st.body, env, conds)
        elif isinstance(st, ast.Try) or st.__class__.__name__ == "TryStar":
            a, _ = self.block(st.body, dict(env), conds)
            outs = []
            if a is not None:
                a2, _ = self.block(st.orelse, dict(a), conds)
                outs.append(a2)
            h_in = self.join(a, env)
            for h in st.handlers:
                o, _ = self.block(h.body, dict(h_in or env), conds)
                outs.append(o)
            r: Optional[dict] = None
            for o in outs:
                r = self.join(r, o)
            if st.finalbody:
                r2, _ = self.block(st.finalbody, dict(r if r is not None else env), conds)
                if r is not None:
                    r = r2
            return r, conds
        elif isinstance(st, ast.Match):
            r = None
            for c in st.cases:
                o, _ = self.block(c.body, dict(env), conds + ((st.subject, True),))
                r = self.join(r, o)
            return self.join(r, env), conds
        for n in ast.walk(st):
            if isinstance(n, ast.NamedExpr):
                self.bind(n.target, "assign", n.value, conds, env)
        return env, conds


def polarity(test: ast.AST, truth: bool, p: str) -> Optional[bool]:
    """The value of the flag p implied by the test having that truth value"""
    if isinstance(test, ast.Name) and test.id == p:
        return truth
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return polarity(test.operand, not truth, p)
    if isinstance(test, ast.BoolOp) and (isinstance(test.op, ast.And) == truth):
        for v in test.values:
            r = polarity(v, truth, p)
            if r is not None:
                return r
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and test.left.id == p and isinstance(test.comparators[0], ast.Constant) \
            and isinstance(test.comparators[0].value, bool) and isinstance(test.ops[0], (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
        same = isinstance(test.ops[0], (ast.Is, ast.Eq))
        return test.comparators[0].value if truth == same else not test.comparators[0].value
    return None


class Access:
    """One access to a store: kind 'read', 'write' or 'test'; loc: text of the store; key: key expression (or None)"""

    def __init__(self, kind: str, loc: str, key: Optional[ast.AST], node: ast.AST, value: Optional[ast.AST] = None, root: str = "self", recv: Optional[ast.AST] = None):
        self.kind, self.loc, self.key, self.node, self.value, self.root, self.recv = kind, loc, key, node, value, root, recv


class Rule:
    def __init__(self, p: Project, rep: Report):
        self.p, self.rep = p, rep
        self.reach: dict[str, Reach] = {}
        self.store_methods: dict[str, tuple[str, str]] = {}  # method qual -> (kind, key parameter)
        self.store_classes: dict[str, dict] = {}
        self.memos: dict[str, list[Access]] = {}

    def r(self, f: Func) -> Reach:
        if f.qual not in self.reach:
            self.reach[f.qual] = Reach(f)
        return self.reach[f.qual]

    # --- expansion -----------------------------------------------------------------------------------------------------
    def canon(self, f: Func, e: ast.AST, depth: int = 0) -> str:
        """Text of an expression where each name is replaced by its version, local copies being opened"""
        R = self.r(f)
        if isinstance(e, ast.Name):
            env = R.env_at.get(id(e), {})
            d = env.get(e.id)
            if not d:
                return e.id
            if len(d) == 1 and depth < 6:
                one = next(iter(d))
                if one[0] == "def" and one[2] == "assign":
                    return self.canon(f, R.defs[one[1]][1], depth + 1)
            return e.id + "#" + ",".join(sorted(str(x[1]) for x in d))
        if isinstance(e, ast.Constant):
            return repr(e.value)
        parts = []
        for name, val in ast.iter_fields(e):
            if name in ("ctx", "type_comment", "kind"):
                continue
            if isinstance(val, ast.AST):
                parts.append(name + "=" + self.canon(f, val, depth))
            elif isinstance(val, list):
                parts.append(name + "=[" + ",".join(self.canon(f, v, depth) if isinstance(v, ast.AST) else str(v) for v in val) + "]")
            elif val is not None:
                parts.append(f"{name}={val}")
        return type(e).__name__ + "(" + ";".join(parts) + ")"

    def opened(self, f: Func, e: ast.AST, depth: int = 0) -> list[ast.AST]:
        """The expressions a local name may stand for"""
        if isinstance(e, ast.Name) and depth < 6:
            R = self.r(f)
            d = R.env_at.get(id(e), {}).get(e.id)
            if d and all(x[0] == "def" and x[2] == "assign" for x in d):
                out: list[ast.AST] = []
                for x in d:
                    out += self.opened(f, R.defs[x[1]][1], depth + 1)
                return out
        return [e]

    def lossy(self, f: Func, e: ast.AST, depth: int = 0) -> Optional[str]:
        """Why the key expression does not distinguish the values of what it is made of"""
        if isinstance(e, ast.Name):
            for o in self.opened(f, e):
                if o is not e and depth < 6:
                    w = self.lossy(f, o, depth + 1)
                    if w:
                        return w
            return None
        if isinstance(e, ast.IfExp):
            return self.lossy(f, e.body, depth) or self.lossy(f, e.orelse, depth)
        if isinstance(e, ast.Compare):
            return f"only the outcome of '{ast.unparse(e)}' is kept"
        if isinstance(e, ast.Subscript):
            return f"only a part is kept ('{ast.unparse(e)}')"
        if isinstance(e, ast.Attribute):
            if e.attr in LOSSY_ATTRS and not (isinstance(e.value, ast.Name) and e.value.id == "self"):
                return f"only '.{e.attr}' is kept"
            return self.lossy(f, e.value, depth)
        if isinstance(e, ast.Call):
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
            if nm in LOSSY_CALLS:
                return f"'{nm}' does not distinguish all values"
            tg, _ = self.p.callees(f.module, e)
            for g in tg:
                if depth < 4:
                    for n in self.p.own_nodes(g):
                        if isinstance(n, ast.Return) and n.value is not None:
                            w = self.lossy(g, n.value, depth + 1)
                            if w and (g.cls is None or g.name not in ("cpp_scope", "cpp_scope_str")):
                                return w
            for a in list(e.args) + [k.value for k in e.keywords] + ([e.func.value] if isinstance(e.func, ast.Attribute) else []):
                w = self.lossy(f, a, depth)
                if w:
                    return w
            return None
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                w = self.lossy(f, c, depth)
                if w:
                    return w
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in e.generators:
                if g.ifs:
                    return f"some parts are left out ('{ast.unparse(e)}')"
                w = self.lossy(f, g.iter, depth)
                if w:
                    return w
        return None

    # --- dependences ---------------------------------------------------------------------------------------------------
    def deps(self, f: Func, e: Optional[ast.AST], seen: Optional[set] = None) -> set[str]:
        """Parameters on which the value of an expression depends (data, and the conditions under which it was computed)"""
        R = self.r(f)
        seen = set() if seen is None else seen
        out: set[str] = set()
        if e is None:
            return out
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for d in R.env_at.get(id(n), {}).get(n.id, ()):
                    if d[0] == "param":
                        out.add(d[1])
                    elif d not in seen:
                        seen.add(d)
                        _k, val, conds = R.defs[d[1]]
                        out |= self.deps(f, val, seen)
                        out |= self.cond_deps(f, conds, n.id, seen)
                        out |= self.mutation_deps(f, n.id, seen)
        return out

    def cond_deps(self, f: Func, conds: tuple, target: str, seen: set) -> set[str]:
        out: set[str] = set()
        for test, _t in conds:
            if isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and test.left.id == target and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)):
                continue  # if X is None: X = default
            out |= self.deps(f, test, seen)
        return out

    def mutation_deps(self, f: Func, name: str, seen: set) -> set[str]:
        key = ("mut", name)
        if key in seen:
            return set()
        seen.add(key)
        out: set[str] = set()
        R = self.r(f)
        for n in self.p.own_nodes(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                for a in n.args:
                    out |= self.deps(f, a, seen)
                out |= self.cond_deps(f, R.conds_at.get(id(n), ()), name, seen)
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == name:
                st = self.p.parent_of.get(n)
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and st.value is not None:
                    out |= self.deps(f, st.value, seen)
                    out |= self.cond_deps(f, R.conds_at.get(id(st), ()), name, seen)
        return out

    # --- keyed store classes -------------------------------------------------------------------------------------------
    def find_store_classes(self) -> None:
        for cq, c in sorted(self.p.classes.items()):
            per_attr: dict[str, list[tuple[Func, str, ast.AST]]] = {}
            for f in self.p.all_funcs():
                if f.cls is None or f.cls.full != cq or len(f.params) < 2:
                    continue
                for a in self.dict_accesses(f):
                    if not a.loc.startswith("self.") or a.key is None:
                        continue
                    if a.kind == "write" and not (isinstance(a.value, ast.Name) and a.value.id in f.params):
                        continue
                    dep = self.deps(f, a.key) - {"self"}
                    if len(dep) == 1:
                        per_attr.setdefault(a.loc, []).append((f, a.kind, a.key))
            for loc, acc in per_attr.items():
                kinds = {}
                for f, k, key in acc:
                    kinds.setdefault(f.qual, set()).add(k)
                writers = {q for q, k in kinds.items() if "write" in k}
                readers = {q for q, k in kinds.items() if "write" not in k}
                if not writers or not readers:
                    continue
                self.store_classes[cq] = {"loc": loc, "accesses": acc}
                forms: dict[str, tuple[Func, ast.AST]] = {}
                for f, k, key in acc:
                    par = next(iter(self.deps(f, key) - {"self"}))
                    kind = "write" if f.qual in writers else "read" if "read" in kinds[f.qual] else "test"
                    self.store_methods[f.qual] = (kind, par)
                    self.rep.count("operations of keyed store classes")
                    w = self.lossy(f, key)
                    if w:
                        self.rep.add("store-key", f"{f.qual}: key '{ast.unparse(key)}'", f.loc(key), f"two different keys share one entry: {w}")
                    forms.setdefault(self.canon(f, key).replace(f"{par}#{par}", "§"), (f, key))
                if len(forms) > 1:
                    a, b = list(forms.values())[:2]
                    self.rep.add("store-key", f"{cq}: keys '{ast.unparse(a[1])}' and '{ast.unparse(b[1])}'", b[0].loc(b[1]), f"{a[0].name} and {b[0].name} do not derive the key in the same way: what is read is not what was stored for that key")

    def dict_accesses(self, f: Func) -> Iterator[Access]:
        """D[key], key in D, D.get(key), D.setdefault(key) on persistent dictionaries; attributes used as a store"""
        for n in self.p.own_nodes(f):
            if isinstance(n, ast.Subscript) and not isinstance(n.slice, ast.Slice):
                loc = self.location(f, n.value)
                if loc:
                    if isinstance(n.ctx, ast.Store):
                        st = self.p.parent_of.get(n)
                        v = st.value if isinstance(st, (ast.Assign, ast.AnnAssign)) else None
                        if v is not None:
                            yield Access("write", loc[0], n.slice, n, v, loc[1], n.value)
                    elif isinstance(n.ctx, ast.Load):
                        yield Access("read", loc[0], n.slice, n, None, loc[1], n.value)
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                d = n.comparators[0]
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "keys" and not d.args:
                    d = d.func.value
                loc = self.location(f, d)
                if loc:
                    yield Access("test", loc[0], n.left, n, None, loc[1], d)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "setdefault", "__contains__", "__getitem__") and n.args:
                loc = self.location(f, n.func.value)
                if loc and self.is_dict(f, n.func.value):
                    if n.func.attr == "setdefault" and len(n.args) > 1:
                        yield Access("write", loc[0], n.args[0], n, n.args[1], loc[1], n.func.value)
                    yield Access("test" if n.func.attr == "__contains__" else "read", loc[0], n.args[0], n, None, loc[1], n.func.value)

    def is_dict(self, f: Func, e: ast.AST) -> bool:
        tg, _ = [], []
        par = self.p.parent_of.get(e)
        call = self.p.parent_of.get(par) if par is not None else None
        if isinstance(call, ast.Call):
            tg, _ = self.p.callees(f.module, call)
        return not tg

    def location(self, f: Func, e: ast.AST) -> Optional[tuple[str, str]]:
        """(text, root parameter or 'global' / 'class') of a persistent store: attribute chain of a parameter, module variable"""
        for o in self.opened(f, e):
            if isinstance(o, ast.Attribute):
                d = dotted(o)
                if not d:
                    return None
                root = d.split(".")[0]
                if root in f.params:
                    if root == "self" and d.count(".") == 1 and self.class_level(f, o.attr):
                        return d, "class"
                    return d, root
                return (d, "class") if f.cls is not None and root in (f.cls.name, "cls") else None
            if isinstance(o, ast.Name) and o.id not in f.params and o.id in self.module_vars(f.module):
                R = self.r(f)
                if not R.env_at.get(id(o), {}).get(o.id):
                    return o.id, "global"
        return None

    def module_vars(self, m: Module) -> set[str]:
        out = set()
        for st in m.tree.body:
            ts = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []
            for t in ts:
                if isinstance(t, ast.Name):
                    out.add(t.id)
        return out

    def class_level(self, f: Func, attr: str) -> bool:
        """The attribute is created in the class body (shared by all objects) and never on the object"""
        if f.cls is None:
            return False
        hit = False
        for cq in self.p.mro(f.cls.full):
            c = self.p.classes.get(cq)
            if c is None:
                continue
            for st in c.node.body:
                if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and isinstance(st.value, (ast.Dict, ast.List, ast.Set, ast.Call)):
                    if isinstance(st.value, ast.Call) and ast.unparse(st.value.func).split(".")[-1] == "field":
                        continue
                    ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                    hit = hit or any(isinstance(t, ast.Name) and t.id == attr for t in ts)
            for g in self.p.all_funcs():
                if g.cls is not None and g.cls.full == cq and g.name in ("__init__", "__post_init__"):
                    for n in self.p.own_nodes(g):
                        if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store):
                            return False
        return hit

    def attr_accesses(self, f: Func) -> Iterator[Access]:
        if not f.params or f.params[0] != "self":
            return
        for n in self.p.own_nodes(f):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                if isinstance(n.ctx, ast.Store):
                    st = self.p.parent_of.get(n)
                    if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                        yield Access("write", f"self.{n.attr}", None, n, st.value)
                elif isinstance(n.ctx, ast.Load):
                    par = self.p.parent_of.get(n)
                    if isinstance(par, ast.Compare) and any(isinstance(c, ast.Constant) and c.value is None for c in par.comparators):
                        yield Access("test", f"self.{n.attr}", None, n)
                    elif (isinstance(par, (ast.If, ast.While, ast.IfExp)) and par.test is n) or (isinstance(par, ast.UnaryOp) and isinstance(par.op, ast.Not)):
                        yield Access("test", f"self.{n.attr}", None, n)
                    else:
                        yield Access("read", f"self.{n.attr}", None, n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr", "setattr") and len(n.args) >= 2 and isinstance(n.args[0], ast.Name) and n.args[0].id == "self":
                k = n.args[1]
                kind = {"hasattr": "test", "getattr": "read", "setattr": "write"}[n.func.id]
                v = n.args[2] if kind == "write" and len(n.args) > 2 else None
                if isinstance(k, ast.Constant):
                    yield Access(kind, f"self.{k.value}", None, n, v)
                else:
                    yield Access(kind, "self.*", k, n, v)

    def store_accesses(self, f: Func) -> Iterator[Access]:
        for n in self.p.own_nodes(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                tg, _ = self.p.callees(f.module, n)
                for g in tg:
                    if g.qual in self.store_methods:
                        kind, par = self.store_methods[g.qual]
                        loc = self.location(f, n.func.value)
                        if loc is None:
                            continue
                        pos = [a for a in g.params if a != "self"]
                        args = {pos[i]: a for i, a in enumerate(n.args) if i < len(pos)}
                        args.update({k.arg: k.value for k in n.keywords if k.arg})
                        val = next((v for k, v in args.items() if k != par), None)
                        yield Access(kind, loc[0], args.get(par), n, val if kind == "write" else None, loc[1], n.func.value)
                        break

    # --- the memo functions ----------------------------------------------------------------------------------------------
    def find_memos(self) -> None:
        for f in self.p.all_funcs():
            if f.name in ("__init__", "__post_init__") or (f.cls is not None and f.cls.full in self.store_classes):
                continue
            acc = list(self.dict_accesses(f)) + list(self.attr_accesses(f)) + list(self.store_accesses(f))
            if not any(a.kind == "write" for a in acc):
                continue
            by: dict[str, list[Access]] = {}
            for a in acc:
                by.setdefault(a.loc, []).append(a)
            for loc, accs in by.items():
                W = [a for a in accs if a.kind == "write"]
                RD = [a for a in accs if a.kind == "read"]
                if not W or not RD:
                    continue
                if not (any(a.kind == "test" for a in accs) or self.tested_read(f, RD) or any(isinstance(a.node, ast.Call) and getattr(a.node.func, "attr", "") == "setdefault" for a in W)):
                    continue
                if not self.answers(f, RD):
                    continue
                self.memos.setdefault(f.qual, []).extend(accs)
                self.check_memo(f, loc, accs)

    def tested_read(self, f: Func, RD: list[Access]) -> bool:
        """x = D.get(key) / getattr(self, 'a', None), then a test on x; or try: D[key] except KeyError"""
        for a in RD:
            par = self.p.parent_of.get(a.node)
            if isinstance(par, ast.NamedExpr):
                return True
            if isinstance(par, (ast.Assign, ast.AnnAssign)):
                ts = par.targets if isinstance(par, ast.Assign) else [par.target]
                names = {t.id for t in ts if isinstance(t, ast.Name)}
                for n in self.p.own_nodes(f):
                    if isinstance(n, (ast.If, ast.IfExp, ast.While)) and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n.test)):
                        return True
            cur = par
            while cur is not None and cur is not f.node:
                if isinstance(cur, ast.Try) and any(h.type is not None and "KeyError" in ast.unparse(h.type) or h.type is not None and "AttributeError" in ast.unparse(h.type) for h in cur.handlers):
                    return True
                cur = self.p.parent_of.get(cur)
        return False

    def answers(self, f: Func, RD: list[Access]) -> bool:
        """What is read reaches a return"""
        R = self.r(f)
        reads = {id(a.node) for a in RD}
        for n in self.p.own_nodes(f):
            if isinstance(n, ast.Return) and n.value is not None:
                todo: list[ast.AST] = [n.value]
                seen: set = set()
                while todo:
                    e = todo.pop()
                    if id(e) in reads:
                        return True
                    if isinstance(e, ast.Name):
                        for d in R.env_at.get(id(e), {}).get(e.id, ()):
                            if d[0] == "def" and d not in seen:
                                seen.add(d)
                                todo.append(R.defs[d[1]][1])
                    elif isinstance(e, ast.IfExp):
                        todo += [e.body, e.orelse]
                    elif isinstance(e, (ast.BoolOp,)):
                        todo += e.values
                    elif isinstance(e, ast.NamedExpr):
                        todo.append(e.value)
                    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("copy", "setdefault", "get"):
                        todo.append(e.func.value)
        return False

    def flags(self, f: Func) -> set[str]:
        out = set()
        args = f.node.args
        allp = args.posonlyargs + args.args + args.kwonlyargs
        for a in allp:
            if a.annotation is not None and ast.unparse(a.annotation) == "bool":
                out.add(a.arg)
        defaults = list(zip(reversed(args.posonlyargs + args.args), reversed(args.defaults))) + [(a, d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None]
        for a, d in defaults:
            if isinstance(d, ast.Constant) and isinstance(d.value, bool):
                out.add(a.arg)
        return out

    def pol(self, f: Func, node: ast.AST, flag: str) -> Optional[bool]:
        R = self.r(f)
        n: Optional[ast.AST] = node
        # conditions of the expression itself: if hasattr(...) and include_self, conditional expressions
        while n is not None and not isinstance(n, ast.stmt):
            par = self.p.parent_of.get(n)
            if isinstance(par, ast.IfExp) and n is not par.test:
                r = polarity(par.test, n is par.body, flag)
                if r is not None:
                    return r
            if isinstance(par, ast.BoolOp):
                for v in par.values:
                    if v is n:
                        break
                    r = polarity(v, isinstance(par.op, ast.And), flag)
                    if r is not None:
                        return r
            n = par
        for test, truth in R.conds_at.get(id(node), R.conds_at.get(id(n), ())):
            r = polarity(test, truth, flag)
            if r is not None:
                return r
        return None

    def check_memo(self, f: Func, loc: str, accs: list[Access]) -> None:
        self.rep.count("memoised stores analysed")
        self.rep.sample(f"{f.qual}: {loc}")
        W = [a for a in accs if a.kind == "write"]
        reads = [a for a in accs if a.kind in ("read", "test")]
        R = self.r(f)
        flags = self.flags(f)
        pure_reads = [a for a in accs if a.kind == "read"]
        root = accs[0].root
        for w in W:
            # the written value is what was read: not a computation
            if isinstance(w.value, ast.Constant) or (isinstance(w.value, ast.Name) and w.value.id in f.params and R.env_at.get(id(w.value), {}).get(w.value.id) == frozenset([("param", w.value.id)])):
                continue
            need = self.deps(f, w.value)
            conds = R.conds_at.get(id(w.node), ())
            for test, _t in conds:
                if not self.mentions_store(f, test, accs):
                    need |= self.deps(f, test)
            # other answers given after the store was consulted
            first = min((self.pos(f, a.node) for a in reads), default=0)
            for n in self.p.own_nodes(f):
                if isinstance(n, ast.Return) and n.value is not None and self.pos(f, n) > first and self.pos(f, n) < self.pos(f, w.node):
                    cs = R.conds_at.get(id(n), ())
                    if any(self.mentions_store(f, t, accs) for t, _ in cs):
                        continue
                    for t, _ in cs:
                        need |= self.deps(f, t)
            have: set[str] = set()
            if root not in ("global", "class"):
                have.add(root)
                if root == "self" or not any(q == "self" for q in f.params):
                    have.add("self")
            if w.key is not None:
                why = self.lossy(f, w.key)
                kd = self.deps(f, w.key)
                if why and kd & need:
                    self.rep.add("key", f"{f.qual}: {loc} key '{self.text(f, w.key)}'", f.loc(w.node), f"the result is remembered under a key which several arguments share: {why}")
                    continue
                have |= kd
            for q in sorted(need - have):
                if q == "self" and w.key is None and root not in ("global", "class"):
                    continue
                if q in flags:
                    pw = self.pol(f, w.node, q)
                    bad = next((a for a in pure_reads if a.node is not w.node and self.pol(f, a.node, q) != pw), None) if pw is not None else None
                    if pw is not None and bad is None:
                        self.rep.count("flags which select the store")
                        continue
                    if pw is not None and bad is not None:
                        self.rep.add("key", f"{f.qual}: {loc} for flag '{q}'", f.loc(bad.node), f"the result computed with {q}={pw} is also answered when {q} is {'not ' if pw else ''}given")
                        continue
                self.rep.add("key", f"{f.qual}: {loc} without '{q}'", f.loc(w.node), f"the remembered result depends on '{q}', which is not part of the key: the answer for another '{q}' is stale")
            # same key for reads and writes
            if w.key is not None:
                cw = self.canon(f, w.key)
                for a in reads:
                    if a.key is not None and a.loc == w.loc and self.canon(f, a.key) != cw:
                        # reading other entries (a hierarchy) is fine when that read is not tested/returned
                        self.rep.add("same-key", f"{f.qual}: {loc} read '{self.text(f, a.key)}' written '{self.text(f, w.key)}'", f.loc(w.node),
                                     "the result is stored under another key than the one which is looked up (or the variable was reassigned in between)")

    def text(self, f: Func, e: ast.AST) -> str:
        o = self.opened(f, e)
        return ast.unparse(o[0]) if len(o) == 1 else ast.unparse(e)

    def pos(self, f: Func, n: ast.AST) -> tuple:
        return (getattr(n, "lineno", 0), getattr(n, "col_offset", 0))

    def mentions_store(self, f: Func, test: ast.AST, accs: list[Access]) -> bool:
        ids = {id(a.node) for a in accs}
        R = self.r(f)
        for n in ast.walk(test):
            if id(n) in ids:
                return True
            if isinstance(n, ast.Name):
                for d in R.env_at.get(id(n), {}).get(n.id, ()):
                    if d[0] == "def" and any(id(x) in ids for x in ast.walk(R.defs[d[1]][1])):
                        return True
        return False

    # --- forget: setters and replaced attributes ---------------------------------------------------------------------------
    def concrete(self, c: str) -> list[str]:
        """A class and its subclasses"""
        out, todo = [], [c]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.append(x)
            if x in self.p.classes:
                todo += [s.full for s in self.p.classes[x].subclasses]
        return out

    def self_calls(self, f: Func, cls: str, n: ast.AST) -> list[Func]:
        """Targets, in the class cls, of self.m() / super().m() / Base.m(self) / self.property"""
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            v = n.func.value
            if isinstance(v, ast.Name) and v.id == "self":
                g = self.p.find_method(cls, n.func.attr)
                return [g] if g else []
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls is not None:
                mro = self.p.mro(cls)
                after = mro[mro.index(f.cls.full) + 1:] if f.cls.full in mro else self.p.mro(f.cls.full)[1:]
                for c in after:
                    if c in self.p.classes and n.func.attr in self.p.classes[c].methods:
                        return [self.p.classes[c].methods[n.func.attr]]
                return []
            if any(isinstance(a, ast.Name) and a.id == "self" for a in n.args):
                return self.p.callees(f.module, n)[0]
        elif isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == "self" for a in n.args):
            return self.p.callees(f.module, n)[0]
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
            g = self.p.find_method(cls, n.attr)
            if g is not None and (g.is_property or any("property" in ast.unparse(d) for d in getattr(g.node, "decorator_list", []))):
                return [g]
        return []

    def attrs_read(self, f: Func, cls: str, depth: int = 0, seen: Optional[set] = None) -> set[str]:
        seen = set() if seen is None else seen
        if f.qual in seen or depth > 6:
            return set()
        seen.add(f.qual)
        out: set[str] = set()
        for n in self.p.own_nodes(f):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
                out.add(str(n.args[1].value))
            for g in self.self_calls(f, cls, n):
                if g.cls is not None and "self" in g.params:
                    out |= self.attrs_read(g, cls, depth + 1, seen)
        return out

    def setters(self, cls: str) -> dict[str, Func]:
        """Property setters of a class: name -> function"""
        out: dict[str, Func] = {}
        for c in self.p.mro(cls):
            for f in self.p.all_funcs():
                if f.cls is not None and f.cls.full == c:
                    for d in getattr(f.node, "decorator_list", []):
                        if isinstance(d, ast.Attribute) and d.attr == "setter" and f.name not in out:
                            out[f.name] = f
        return out

    def constants(self, f: Func, n: ast.AST, depth: int = 0) -> set[str]:
        """Strings written in an expression, module and class constants included"""
        out: set[str] = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                out.add(x.value)
            nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else None
            if nm and depth < 2:
                bodies = [f.module.tree.body] + [self.p.classes[c].node.body for c in (self.p.mro(f.cls.full) if f.cls else []) if c in self.p.classes]
                for b in bodies:
                    for st in b:
                        ts = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []
                        if getattr(st, "value", None) is not None and any(isinstance(t, ast.Name) and t.id == nm for t in ts):
                            out |= self.constants(f, st.value, depth + 1)
        return out

    def fresh_value(self, f: Func, v: Optional[ast.AST]) -> bool:
        return isinstance(v, ast.Constant) or isinstance(v, (ast.Dict, ast.List)) and not getattr(v, "keys", getattr(v, "elts", None)) or isinstance(v, ast.Call) and not v.args and not v.keywords

    def cleared(self, f: Func, cls: str, depth: int = 0, seen: Optional[set] = None) -> set[str]:
        """Attributes of self which are deleted, reset or emptied on the straight path of f (transitively)"""
        seen = set() if seen is None else seen
        if f.qual in seen or depth > 6:
            return set()
        seen.add(f.qual)
        out: set[str] = set()
        dyn = False
        for n in self.p.own_nodes(f):
            if not self.unconditional(f, n):
                continue
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                par = self.p.parent_of.get(n)
                if isinstance(n.ctx, ast.Del):
                    out.add(n.attr)
                elif isinstance(n.ctx, ast.Store) and isinstance(par, (ast.Assign, ast.AnnAssign)) and self.fresh_value(f, par.value):
                    out.add(n.attr)
                elif isinstance(n.ctx, ast.Load) and isinstance(par, ast.Attribute):
                    call = self.p.parent_of.get(par)
                    if isinstance(call, ast.Call) and call.func is par and (par.attr == "clear" or any(self.empties(g) for g in self.p.callees(f.module, call)[0])):
                        out.add(n.attr)
            elif isinstance(n, ast.Call):
                d = ast.unparse(n.func)
                if d == "delattr" or d in ("self.__dict__.pop", "vars(self).pop", "self.__dict__.clear", "object.__delattr__", "setattr"):
                    dyn = True
                    for a in n.args:
                        out |= self.constants(f, a)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Del) and "__dict__" in ast.unparse(n.value):
                dyn = True
                out |= self.constants(f, n.slice)
            for g in self.self_calls(f, cls, n):
                out |= self.cleared(g, cls, depth + 1, seen)
        if dyn:
            for n in self.p.own_nodes(f):
                if isinstance(n, (ast.For, ast.comprehension)):
                    out |= self.constants(f, n.iter)
                    for o in self.opened(f, n.iter):
                        out |= self.constants(f, o)
            # loop over a store of the object: for k in list(self.__dict__): if k.startswith(prefix)
            for n in self.p.own_nodes(f):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "startswith" and n.args:
                    out |= {"^" + s for s in self.constants(f, n.args[0])}
        return out

    def unconditional(self, f: Func, n: ast.AST) -> bool:
        """Not under a condition, except one that only asks whether there is something to forget"""
        cur: Optional[ast.AST] = n
        while cur is not None and cur is not f.node:
            par = self.p.parent_of.get(cur)
            if isinstance(par, ast.If) and cur is not par.test:
                t = ast.unparse(par.test)
                if not ("hasattr" in t or "__dict__" in t or "_cache" in t or "startswith" in t or " in " in t or "is not " in t or "!=" in t or "not None" in t):
                    return False
            if isinstance(par, ast.ExceptHandler):
                return False
            cur = par
        return True

    def empties(self, g: Func) -> bool:
        if g.cls is None:
            return False
        for n in self.p.own_nodes(g):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                par = self.p.parent_of.get(n)
                if isinstance(par, (ast.Assign, ast.AnnAssign)) and self.fresh_value(g, par.value):
                    return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "clear":
                return True
        return False

    def backing(self, s: Func) -> set[str]:
        out = {s.name}
        for n in self.p.own_nodes(s):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
        return out

    def check_forget(self) -> None:
        for q in sorted(self.memos):
            f = self.p.funcs[q]
            if f.cls is None:
                continue
            locs = sorted({a.loc[5:] for a in self.memos[q] if a.loc.startswith("self.") and a.loc != "self.*" and a.loc.count(".") == 1})
            dyn = sorted(s for a in self.memos[q] if a.loc == "self.*" and a.key is not None for o in self.opened(f, a.key) for s in self.constants(f, o))
            for cls in self.concrete(f.cls.full):
                if self.p.find_method(cls, f.name) is not f and not self.super_reaches(cls, f):
                    continue
                reads = self.attrs_read(f, cls)
                for name, s in sorted(self.setters(cls).items()):
                    if not (self.backing(s) & reads):
                        continue
                    gone = self.cleared(s, cls)
                    for loc in sorted(set(locs) | set(dyn)):
                        self.rep.count("pairs of a property setter and a memo to forget")
                        if loc not in gone and not any(g.startswith("^") and loc.startswith(g[1:]) for g in gone):
                            self.rep.add("forget", f"{s.qual.rsplit('.', 2)[-2]}.{name} setter keeps {loc}", s.loc(s.node), f"{f.name}() reads {name}: its remembered result ({loc}, class {cls.rsplit('.', 1)[-1]}) stays what it was before {name} was replaced")
                # attributes without a setter, replaced on an existing object
                props = set(self.setters(cls))
                for b in sorted(reads - props):
                    if b.startswith("_"):
                        continue
                    self.plain_attr(f, cls, b, set(locs) | set(dyn))

    def super_reaches(self, cls: str, f: Func) -> bool:
        g = self.p.find_method(cls, f.name)
        return g is not None and any(isinstance(n, ast.Call) and f in self.self_calls(g, cls, n) for n in self.p.own_nodes(g))

    def plain_attr(self, f: Func, cls: str, attr: str, locs: set[str]) -> None:
        owner = next((c for c in self.p.mro(cls) if c in self.p.classes and any(isinstance(st, (ast.AnnAssign, ast.Assign)) and attr in {getattr(t, "id", None) for t in (st.targets if isinstance(st, ast.Assign) else [st.target])} for st in self.p.classes[c].node.body)), None)
        if owner is None or attr != "parent":
            return
        for g in self.p.all_funcs():
            if g.name in ("__init__", "__post_init__", "__deepcopy__"):
                continue
            for n in self.p.own_nodes(g):
                if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store):
                    self.rep.count("replacements of a plain attribute read by a memo")
                    if self.is_fresh(g, n.value) or self.followed_by_clear(g, n, locs):
                        continue
                    self.rep.add("forget", f"{g.qual}: {ast.unparse(n)} keeps {'/'.join(sorted(locs))[:80]}", g.loc(n), f"{f.name}() reads {attr}: its remembered result stays what it was before {attr} was replaced")

    def is_fresh(self, g: Func, e: ast.AST) -> bool:
        os = self.opened(g, e)
        return bool(os) and all(isinstance(o, ast.Call) and self.p.constructed_class(g.module, o) for o in os)

    def followed_by_clear(self, g: Func, n: ast.AST, locs: set[str]) -> bool:
        recv = ast.unparse(n.value)  # type: ignore
        for c in self.p.own_nodes(g):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and ast.unparse(c.func.value) == recv and self.pos(g, c) > self.pos(g, n):
                for t in self.p.callees(g.module, c)[0]:
                    if t.cls is not None and locs & self.cleared(t, t.cls.full):
                        return True
        return False

    # --- copies ----------------------------------------------------------------------------------------------------------
    def check_copies(self) -> None:
        used = sorted({(self.p.funcs[q].cls.full, a.loc) for q in self.memos for a in self.memos[q] if self.p.funcs[q].cls is not None and a.recv is not None and self.store_class_of(q, a)})
        for cq in sorted(self.store_classes):
            holders = [(c, loc) for c, loc in used]
            if not holders:
                continue
            self.rep.count("keyed store classes held by elements")
            c = self.p.classes[cq]
            dc = self.p.find_method(cq, "__deepcopy__")
            ok = False
            if dc is not None:
                self.rep.count("copy operations examined")
                rets = [n for n in self.p.own_nodes(dc) if isinstance(n, ast.Return)]
                ok = bool(rets) and all(n.value is not None and self.empty_instance(dc, n.value, c.name) for n in rets)
                if not ok:
                    self.rep.add("copy", f"{cq}.__deepcopy__", dc.loc(dc.node), "a copy of the store carries the remembered results: the copied element, which is about to be modified, answers with the results of the original")
                continue
            # or the copy of the element leaves the stores out
            for h, loc in holders:
                e = self.p.find_method(h, "__deepcopy__")
                if e is not None:
                    txt = ast.unparse(e.node)
                    names = self.constants(e, ast.Module(body=e.node.body, type_ignores=[]))
                    if c.name in txt or loc[5:] in names or any(s and loc[5:].startswith(s) for s in names if s.startswith("_c")) or loc[5:] in self.cleared_on_copy(e, h):
                        ok = True
                        continue
                self.rep.add("copy", f"{h.rsplit('.', 1)[-1]}{loc[4:]}", (e or dc or self.p.funcs[next(iter(self.memos))]).loc((e or self.p.funcs[next(iter(self.memos))]).node),
                             "the remembered results are copied with the element: the copy, which is about to be modified, answers with the results of the original")

    def store_class_of(self, q: str, a: Access) -> bool:
        f = self.p.funcs[q]
        return isinstance(a.node, ast.Call) and any(g.qual in self.store_methods for g in self.p.callees(f.module, a.node)[0])

    def cleared_on_copy(self, e: Func, cls: str) -> set[str]:
        out: set[str] = set()
        for n in self.p.own_nodes(e):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                g = self.p.find_method(cls, n.func.attr)
                if g is not None:
                    out |= self.cleared(g, cls)
        return out

    def empty_instance(self, f: Func, e: ast.AST, name: str) -> bool:
        for o in self.opened(f, e):
            if not (isinstance(o, ast.Call) and not o.args and not o.keywords and (ast.unparse(o.func) in (name, "type(self)", "self.__class__") or
                                                                                  isinstance(o.func, ast.Name) and any(ast.unparse(x) in (name, "type(self)", "self.__class__") for x in self.opened(f, o.func)))):
                return False
            if isinstance(e, ast.Name):
                for n in self.p.own_nodes(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == e.id:
                        par = self.p.parent_of.get(n)
                        if not (isinstance(par, (ast.Assign, ast.AnnAssign)) and self.fresh_value(f, par.value)):
                            return False
                    if isinstance(n, ast.Call) and "update" in ast.unparse(n.func) and e.id in ast.unparse(n.func):
                        return False
        return True

    # --- shared ----------------------------------------------------------------------------------------------------------
    def check_shared(self) -> None:
        memo = {q for q in self.memos if self.p.funcs[q].cls is not None}
        # the registries hand out objects which are meant to be filled
        memo = {q for q in memo if not self.registry_getter(q)}
        names = {self.p.funcs[q].name for q in memo}
        for f in self.p.all_funcs():
            for n in self.p.own_nodes(f):
                tgt: Optional[ast.AST] = None
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    tgt = n.value
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    tgt = n.func.value
                if tgt is None:
                    continue
                steps = 0
                src = tgt
                while True:
                    while isinstance(src, (ast.Attribute, ast.Subscript)):
                        src = src.value
                        steps += 1
                    os = self.opened(f, src) if isinstance(src, ast.Name) else [src]
                    if len(os) == 1 and os[0] is not src and isinstance(os[0], (ast.Attribute, ast.Subscript)) and steps < 20:
                        src = os[0]
                        continue
                    break
                for o in os:
                    if isinstance(o, ast.Call) and isinstance(o.func, ast.Attribute) and o.func.attr in names:
                        self.rep.count("modified values whose origin is a call of that name")
                        tg = self.p.callees(f.module, o)[0]
                        if any(g.qual in memo for g in tg):
                            self.rep.add("shared", f"{f.qual}: {ast.unparse(n)[:80]}", f.loc(n), f"modifies in place the result remembered by {o.func.attr}(): later queries answer with the modified object")
        # the scope object itself derives its text from its parts once and for all
        for f in self.p.all_funcs():
            if f.cls is not None and f.cls.name == "CppScope" and f.name in ("__init__", "__post_init__"):
                continue
            for n in self.p.own_nodes(f):
                if isinstance(n, ast.Attribute) and n.attr == "scope_parts":
                    par = self.p.parent_of.get(n)
                    self.rep.count("uses of the parts of a scope")
                    bad = isinstance(n.ctx, (ast.Store, ast.Del)) or isinstance(par, ast.Attribute) and par.attr in MUTATORS and isinstance(self.p.parent_of.get(par), ast.Call) \
                        or isinstance(par, ast.Subscript) and isinstance(par.ctx, (ast.Store, ast.Del)) or isinstance(par, ast.AugAssign) and par.target is n
                    if bad:
                        self.rep.add("shared", f"{f.qual}: {ast.unparse(par if par is not None else n)[:80]}", f.loc(n), "modifies the parts of a scope whose text and hierarchy were computed when it was built (and which may be remembered)")

    def registry_getter(self, q: str) -> bool:
        f = self.p.funcs[q]
        ws = [a for a in self.memos[q] if a.kind == "write"]
        return bool(ws) and all(not self.deps(f, a.value) for a in ws)

    # --- registries of the context -----------------------------------------------------------------------------------------
    def check_registries(self) -> None:
        ctx = next((c for c in self.p.classes.values() if c.name == "LitgenContext"), None)
        if ctx is None:
            self.rep.errors.append("class LitgenContext not found")
            return
        regs = {st.target.id for st in ctx.node.body if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and ast.unparse(st.annotation).startswith(("dict[", "Dict["))}
        for f in self.p.all_funcs():
            for a in self.dict_accesses(f):
                nm = a.loc.rsplit(".", 1)[-1]
                if nm not in regs or not (f.cls is not None and f.cls.name == "LitgenContext" or "context" in a.loc):
                    continue
                self.rep.count("accesses to the registries of the context")
                assert a.key is not None
                w = self.unqualified(f, a.key, set())
                if w:
                    self.rep.add("registry", f"{f.qual}: {nm} key '{ast.unparse(a.key)}'", f.loc(a.node), f"the registry is accessed with a name which several scopes may share ({w})")
                if a.kind == "write" and isinstance(a.node, ast.Subscript):
                    if not self.keeps(f, a):
                        self.rep.add("registry", f"{f.qual}: {nm} overwritten", f.loc(a.node), "an earlier entry (same scope opened again) is dropped")

    def keeps(self, f: Func, a: Access) -> bool:
        R = self.r(f)
        accs = [x for x in self.dict_accesses(f) if x.loc == a.loc and x.node is not a.node]
        ids = {id(x.node) for x in accs}
        for test, _t in R.conds_at.get(id(a.node), ()):
            if self.mentions_store(f, test, accs):
                return True
        todo: list[ast.AST] = [a.value] if a.value is not None else []
        seen: set = set()
        while todo:
            e = todo.pop()
            for n in ast.walk(e):
                if id(n) in ids:
                    return True
                if isinstance(n, ast.Name):
                    for d in R.env_at.get(id(n), {}).get(n.id, ()):
                        if d[0] == "def" and d not in seen:
                            seen.add(d)
                            todo.append(R.defs[d[1]][1])
        # try: D[key] except KeyError: D[key] = ...
        cur: Optional[ast.AST] = a.node
        while cur is not None and cur is not f.node:
            if isinstance(cur, ast.ExceptHandler):
                return True
            cur = self.p.parent_of.get(cur)
        return False

    SHORT = {"ns_name", "class_name", "scope_name", "enum_name", "function_name", "decl_name"}

    def unqualified(self, f: Func, e: ast.AST, seen: set, depth: int = 0) -> Optional[str]:
        """The name is the bare name of an element"""
        if depth > 8:
            return None
        if isinstance(e, ast.Attribute):
            if e.attr in self.SHORT:
                return ast.unparse(e)
            return None
        if isinstance(e, ast.Subscript):
            return None
        if isinstance(e, ast.Name):
            R = self.r(f)
            if any(d[0] == "def" and d[2] in ("assign", "aug") and self.accumulates(R.defs[d[1]][1]) and any(isinstance(x, ast.Name) and x.id == e.id for x in ast.walk(R.defs[d[1]][1]))
                   for d in R.env_at.get(id(e), {}).get(e.id, ())):
                return None  # the name is extended part after part: it is a path
            for d in R.env_at.get(id(e), {}).get(e.id, ()):
                if (f.qual, d) in seen:
                    continue
                seen.add((f.qual, d))
                if d[0] == "param":
                    w = self.from_callers(f, d[1], seen, depth)
                elif d[2] in ("assign", "aug"):
                    w = self.unqualified(f, R.defs[d[1]][1], seen, depth + 1)
                else:
                    w = None
                if w:
                    return w
            return None
        if isinstance(e, ast.IfExp):
            # f"{q}::{n}" if q else n
            a, b = self.unqualified(f, e.body, set(seen), depth + 1), self.unqualified(f, e.orelse, set(seen), depth + 1)
            if self.accumulates(e.body) or self.accumulates(e.orelse):
                return None
            return a or b
        if isinstance(e, ast.Call):
            tg = self.p.callees(f.module, e)[0]
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("join", "cpp_scope_str", "qualified_name"):
                return None
            for g in tg:
                if "qualified" in g.name or g.qual in seen:
                    continue
                seen.add(g.qual)
                for n in self.p.own_nodes(g):
                    if isinstance(n, ast.Return) and n.value is not None:
                        w = self.unqualified(g, n.value, seen, depth + 1)
                        if w:
                            return w
            return None
        return None

    def accumulates(self, e: ast.AST) -> bool:
        return isinstance(e, (ast.JoinedStr, ast.BinOp))

    def from_callers(self, f: Func, par: str, seen: set, depth: int) -> Optional[str]:
        pos = [a for a in f.params if a not in ("self", "cls")]
        for g, _m, call in self.p.call_sites().get(f.qual, []):
            arg: Optional[ast.AST] = next((k.value for k in call.keywords if k.arg == par), None)
            if arg is None and par in pos and pos.index(par) < len(call.args):
                arg = call.args[pos.index(par)]
            if arg is not None and isinstance(g, Func):
                w = self.unqualified(g, arg, seen, depth + 1)
                if w:
                    return f"{w}, given by {g.name}"
        return None

    # --- lru_cache -----------------------------------------------------------------------------------------------------------
    def check_caches(self) -> None:
        pur = Purity(self.p)
        for f in self.p.all_funcs():
            for d in getattr(f.node, "decorator_list", []):
                nm = dotted(d)
                full = self.p.full_name(f.module, d.func if isinstance(d, ast.Call) else d) or nm
                if nm not in CACHES and full not in CACHES:
                    continue
                self.rep.count("functions under lru_cache / cache")
                if f.cls is not None and f.params and f.params[0] in ("self", "cls") and "cached_property" not in nm:
                    self.rep.add("pure", f"{f.qual} on self", f.loc(f.node), "a method under a global cache remembers its result across modifications of the object")
                    continue
                w = pur.impure_reason(f)
                if w:
                    self.rep.add("pure", f.qual, f.loc(f.node), f"the remembered result does not depend on the arguments only: {w}")
                elif not pur.immutable_result(f):
                    self.rep.add("pure", f"{f.qual} result", f.loc(f.node), "the remembered object can be modified by those who obtain it")


def main_rule(p: Project, rep: Report) -> Rule:
    r = Rule(p, rep)
    r.find_store_classes()
    r.find_memos()
    r.check_forget()
    r.check_copies()
    r.check_shared()
    r.check_registries()
    r.check_caches()
    return r


def run(p: Project, tier: str) -> Report:
    rep = Report("C13", "each memoised result is keyed by all it depends on, read and written under one key, not carried to copies, forgotten by the setters of what it reads, "
                        "never modified in place; registries keyed by qualified names and merged; functions under lru_cache pure")
    main_rule(p, rep)
    rep.need("memoised stores analysed", 3)
    rep.need("accesses to the registries of the context", 3)
    rep.assumptions = ["an element is not modified through another route than its attributes and properties between two queries",
                       "properties of CppScope (str_cpp, ...) distinguish the scopes they are made from, unless they keep a part only"]
    return rep
