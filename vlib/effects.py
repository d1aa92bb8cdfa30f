"""Interprocedural effect analysis: which pre-existing objects may a function modify?

Objects are denoted by access paths (root, fields).  Roots:
  ("p", i)     what the i-th parameter designates at entry
  ("g", name)  a module level variable
  ("c", name)  a class level variable
  ("O", cls)   an options object that the function did not create
  ("f", site)  an object created during the call (fresh)
Function summaries (modified paths, stored references, returned paths) are computed to a fixpoint
over the resolved call graph (virtual dispatch included)."""
from __future__ import annotations

import ast
import re
from dataclasses import dataclass, field
from typing import Iterable, Optional

from .project import AnalysisError, Cls, Func, Module, Project, dotted, type_args, type_classes, type_object_class

K = 4
STAR = "*"

IMMUTABLE = {
    "builtins.str", "builtins.int", "builtins.bool", "builtins.float", "builtins.bytes", "builtins.complex", "None",
    "pathlib.Path", "pathlib.PurePath", "re.Pattern", "re.Match", "builtins.function", "builtins.type", "builtins.range", "builtins.slice",
    "types.ModuleType", "datetime.datetime", "typing.Callable",
}
MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "discard", "update",
    "setdefault", "popitem", "appendleft", "extendleft", "popleft", "rotate", "difference_update", "intersection_update",
    "symmetric_difference_update", "__setitem__", "__delitem__", "__setattr__", "__iadd__", "set", "subtract", "move_to_end", "write", "truncate",
}
# of these, the ones which store their last argument as an element
STORERS = {"append": 0, "insert": 1, "add": 0, "appendleft": 0, "setdefault": 1}
EXTENDERS = {"extend", "update", "extendleft", "__iadd__"}
ELEMENT_GETTERS = {"pop", "get", "setdefault", "popitem", "popleft", "values", "items", "keys", "copy", "__getitem__", "iter", "find", "findall"}
SHALLOW_FUNCS = {"builtins.list", "builtins.sorted", "builtins.tuple", "builtins.dict", "builtins.set", "builtins.frozenset",
                 "builtins.reversed", "builtins.enumerate", "builtins.zip", "builtins.iter", "builtins.filter", "itertools.chain",
                 "builtins.next", "builtins.max", "builtins.min", "copy.copy", "collections.OrderedDict", "collections.deque",
                 "copy.replace", "dataclasses.replace", "builtins.map", "typing.cast", "functools.partial", "itertools.chain.from_iterable"}
IDENTITY_FUNCS = {"typing.cast"}
ELEMENT_FUNCS = {"builtins.next", "builtins.max", "builtins.min"}
DEEP_FUNCS = {"copy.deepcopy"}

Origin = tuple  # (root, path)
Val = frozenset
EMPTY: Val = frozenset()
NODICT: dict = {}


@dataclass
class Mut:
    root: tuple
    path: tuple
    attr: str
    cls: str  # class of the modified object, at the modification site
    loc: str
    func: str  # function holding the modification
    snippet: str
    chain: tuple = ()  # call chain from the summarised function to the site

    def key(self) -> tuple:
        return (self.root, self.path, self.attr, self.cls, self.func, self.snippet)


@dataclass
class Summary:
    muts: dict = field(default_factory=dict)  # key -> Mut
    stores: set = field(default_factory=set)  # ((root, path), field, Origin)
    ret: set = field(default_factory=set)
    fheap: dict = field(default_factory=dict)  # (fresh root, field) -> set[Origin]
    shallow: dict = field(default_factory=dict)

    def size(self) -> tuple:
        return (len(self.muts), len(self.stores), len(self.ret), sum(len(v) for v in self.fheap.values()),
                sum(len(v) for v in self.shallow.values()))


class Effects:
    def __init__(self, p: Project, options_classes: Iterable[str] = ("LitgenOptions", "SrcmlcppOptions"), passes: int = 12):
        self.p = p
        self._c_imm: dict = {}
        self._c_globals: dict = {}
        self.options_full = {c.full for n in options_classes for c in p.cls_by_name.get(n, [])}
        self.context_full = {c.full for n in ("LitgenContext",) for c in p.cls_by_name.get(n, [])}
        self.sum: dict[str, Summary] = {q: Summary() for q in p.funcs}
        self.enum_classes = {c.full for c in p.classes.values() if any(b.split(".")[-1] in ("Enum", "IntEnum", "Flag", "IntFlag") for b in p.mro(c.full))}
        self.class_level = self._class_level_vars()
        self.module_vars = self._module_vars()
        self.attr_fresh = self._always_fresh_option_attrs()
        self.links = link_attrs(p)
        self.n_calls = 0
        self.n_resolved = 0
        self.callers: dict[str, set[str]] = {}
        self.all_local_muts: dict[str, list[Mut]] = {}
        self._run(passes)

    # ---------------------------------------------------------------- set-up
    def _class_level_vars(self) -> dict[str, dict[str, ast.expr]]:
        """class -> {attr: value} for the attributes which are shared by all the instances"""
        out: dict[str, dict[str, ast.expr]] = {}
        for c in self.p.classes.values():
            is_dc = any(dotted(d).split(".")[-1] == "dataclass" for d in c.node.decorator_list)
            if c.full in self.enum_classes:
                continue
            d: dict[str, ast.expr] = {}
            for st in c.node.body:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            d[t.id] = st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    ann = ast.unparse(st.annotation)
                    if is_dc and "ClassVar" not in ann and isinstance(st.value, ast.Call) and dotted(st.value.func).split(".")[-1] == "field":
                        continue
                    d[st.target.id] = st.value
            # an attribute which the constructor always gives to the instance is not shared
            init = self.p.find_method(c.full, "__init__")
            if init is not None and init.params:
                for st in init.body:
                    tg = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) and st.value is not None else []
                    for t in tg:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == init.params[0]:
                            d.pop(t.attr, None)
            out[c.full] = d
        return out

    def _module_vars(self) -> dict[str, set[str]]:
        out: dict[str, set[str]] = {}
        for m in self.p.modules.values():
            s: set[str] = set()
            for st in ast.walk(m.tree):
                # module level names only
                if self.p.enclosing_func(st) is not None:
                    continue
                par = self.p.parent_of.get(st)
                inclass = False
                while par is not None:
                    if isinstance(par, ast.ClassDef):
                        inclass = True
                        break
                    par = self.p.parent_of.get(par)
                if inclass:
                    continue
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                s.add(n.id)
                elif isinstance(st, (ast.AnnAssign, ast.AugAssign)) and isinstance(st.target, ast.Name):
                    s.add(st.target.id)
            out[m.name] = s
        return out

    def _always_fresh_option_attrs(self) -> dict[tuple[str, str], bool]:
        """(attr name) of options-typed attributes -> True when every store assigns a copy made for it"""
        stores: dict[str, list[bool]] = {}
        for f in self.p.all_funcs():
            for n in ast.walk(f.node):
                tg = []
                if isinstance(n, ast.Assign):
                    tg = [(t, n.value) for t in n.targets]
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    tg = [(n.target, n.value)]
                for t, v in tg:
                    if isinstance(t, ast.Attribute):
                        cl = self.p.classes_of(f.module, t) | self.p.classes_of(f.module, v)
                        if cl & self.options_full:
                            fresh = isinstance(v, ast.Call) and (dotted(v.func).split(".")[-1] == "deepcopy"
                                                                 or (self.p.constructed_class(f.module, v) in self.options_full))
                            stores.setdefault(t.attr, []).append(fresh)
        return {k: all(v) for k, v in stores.items()}  # type: ignore

    # ---------------------------------------------------------------- types
    def immutable(self, mod: Module, node: ast.AST) -> bool:
        r = self._c_imm.get(node)
        if r is None:
            t = self.p.mtype(mod, node)
            r = False if t is None else self.immutable_type(t)
            self._c_imm[node] = r
        return r

    def immutable_type(self, t) -> bool:
        from mypy.types import get_proper_type
        t = get_proper_type(t)
        k = type(t).__name__
        if k == "CallableType":
            return not t.is_type_obj()
        if k in ("TypeType", "Overloaded"):
            return False
        cl = type_classes(t)
        if not cl:
            return False
        if k == "TupleType":
            return all(self.immutable_type(x) for x in t.items)
        if cl <= {"builtins.tuple", "None"} and k == "Instance":
            return all(self.immutable_type(x) for x in t.args)
        return all(c in IMMUTABLE or c in self.enum_classes for c in cl)

    # ---------------------------------------------------------------- fixpoint
    def _run(self, passes: int) -> None:
        funcs = [f for f in self.p.funcs.values() if not isinstance(f.node, ast.Lambda)]
        # nested functions are analysed with their parent
        self.top = [f for f in funcs if f.parent is None]
        self.nested = {f.node: f for f in funcs if f.parent is not None}
        dirty = set(f.qual for f in self.top)
        self.order = self._postorder()
        callers: dict[str, set[str]] = {}
        by_q = {f.qual: f for f in self.top}
        n = 0
        for i in range(passes):
            if not dirty:
                break
            todo = [q for q in self.order if q in dirty]
            dirty = set()
            for q in todo:
                n += 1
                f = by_q[q]
                a = FuncEffects(self, f)
                s = a.run()
                for c in a.called:
                    callers.setdefault(c, set()).add(q)
                old = self.sum[q]
                self._merge(old, s)
                if s.size() != old.size() or getattr(old, "_sz", None) != old.size():
                    if getattr(old, "_sz", None) != old.size():
                        old._sz = old.size()  # type: ignore
                        for c in callers.get(q, ()):
                            dirty.add(c)
                self.all_local_muts[q] = a.local_muts
            if i == 0:
                # the callers map is complete only after the first pass
                for q in by_q:
                    if self.sum[q].size() != (0, 0, 0, 0, 0):
                        dirty |= callers.get(q, set())
        self.callers = callers
        self.iterations = n
        self.converged = not dirty

    def _postorder(self) -> list[str]:
        g: dict[str, list[str]] = {}
        for f in self.top:
            out: list[str] = []
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    out += [x.qual for x in self.p.callees(f.module, n)[0]]
                elif isinstance(n, ast.Attribute):
                    for c in self.p.classes_of(f.module, n.value):
                        m = self.p.find_method(c, n.attr) if c in self.p.classes else None
                        if m is not None and m.is_property:
                            out.append(m.qual)
            g[f.qual] = out
        order: list[str] = []
        seen: set[str] = set()
        for start in sorted(g):
            if start in seen:
                continue
            seen.add(start)
            st = [(start, iter(g[start]))]
            while st:
                q, it = st[-1]
                for c in it:
                    if c in g and c not in seen:
                        seen.add(c)
                        st.append((c, iter(g[c])))
                        break
                else:
                    order.append(q)
                    st.pop()
        return order

    @staticmethod
    def _merge(old: Summary, s: Summary) -> None:
        for k, v in s.muts.items():
            old.muts.setdefault(k, v)
        old.stores |= s.stores
        old.ret |= s.ret
        for k, v2 in s.fheap.items():
            old.fheap.setdefault(k, set()).update(v2)
        for k, v2 in s.shallow.items():
            old.shallow.setdefault(k, set()).update(v2)


class FuncEffects:
    def __init__(self, e: Effects, f: Func):
        self.e = e
        self.p = e.p
        self.f = f
        self.mod = f.module
        self.heap: dict[tuple, dict] = {}
        self.memo: dict = {}
        self.hv = 0
        self.reach_memo: dict = {}
        self.shallow: dict[tuple, set] = {}
        self.s = Summary()
        self.called: set[str] = set()
        self.local_muts: list[Mut] = []
        self.depth = 0
        self.loop_brk: list = []
        self.nested_env: dict[ast.AST, dict] = {}
        self.cur: Func = f

    def run(self) -> Summary:
        env: dict[str, Val] = {}
        for i, prm in enumerate(self.f.params):
            env[prm] = frozenset({(("p", i), ())})
        self.retvals: set = set()
        self._param_types(self.f, env)
        self.block(self.f.body, env)
        s = self.s
        s.ret = set(self.limit(set(self.retvals)))
        groups: dict = {}
        for m in s.muts.values():
            groups.setdefault((m.root, m.attr, m.cls, m.func, m.snippet), []).append(m)
        s.muts = {}
        for ms in groups.values():
            if len(ms) > 5:
                col = collapse({(m.root, m.path) for m in ms})
                m0 = ms[0]
                ms = [Mut(r, pth, m0.attr, m0.cls, m0.loc, m0.func, m0.snippet, m0.chain) for (r, pth) in col]
            for m in ms:
                s.muts.setdefault(m.key(), m)
        sg: dict = {}
        for (t, fld, v) in s.stores:
            sg.setdefault((t[0], fld), set()).add((t, v))
        s.stores = set()
        for (root, fld), tv in sg.items():
            ts = {t for t, _ in tv}
            vs = {v for _, v in tv}
            if len(ts) > 5:
                ts2 = collapse(ts)
                for t in ts2:
                    for v in self.limit(vs):
                        s.stores.add((t, fld, v))
            else:
                for t in ts:
                    for v in self.limit({v for tt, v in tv if tt == t}):
                        s.stores.add((t, fld, v))
        # keep the fresh heap reachable from ret / stores
        todo = [o[0] for o in s.ret if o[0][0] == "f"] + [o[0] for (_, _, o) in s.stores if o[0][0] == "f"]
        seen = set()
        while todo:
            r = todo.pop()
            if r in seen:
                continue
            seen.add(r)
            for fld, vs in self.heap.get((r, ()), {}).items():
                s.fheap[(r, fld)] = set(vs)
                todo += [o[0] for o in vs if o[0][0] == "f"]
            for o in self.shallow.get((r, ()), ()):
                s.shallow.setdefault(r, set()).add(o)
                if o[0][0] == "f":
                    todo.append(o[0])
        return s

    def _param_types(self, f: Func, env: dict) -> None:
        # immutable annotated parameters carry no object
        a = f.node.args  # type: ignore
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None:
                t = ast.unparse(x.annotation).replace("Optional[", "").replace("]", "").replace(" ", "")
                parts = set(re.split(r"[|,]", t))
                if parts <= {"str", "int", "bool", "float", "None"}:
                    env[x.arg] = EMPTY

    # ---------------------------------------------------------------- objects
    def load(self, o: Origin, fld: str, depth: int = 0) -> set:
        root, path = o
        r = set(self.heap.get(o, NODICT).get(fld, ()))
        if root[0] == "f":
            if depth < 4:
                for q in self.shallow.get(o, ()):
                    r |= self.load(q, fld, depth + 1)
            if not r:
                base = root[1]
                r = {(("f", (base[0], "*")), ())}
            return r
        if path and path[-1] == STAR:
            r.add(o)
        elif fld != "[]" and fld in path:
            r.add((root, path[: path.index(fld) + 1] + (STAR,)))
        elif len(path) >= K:
            r.add((root, path[:K] + (STAR,)))
        else:
            r.add((root, path + (fld,)))
        return r

    def loads(self, v: Iterable, fld: str) -> Val:
        r: set = set()
        for o in v:
            r |= self.load(o, fld)
        return self.limit(r)

    def limit(self, r: set) -> Val:
        if len(r) > 12:
            fr = {o for o in r if o[0][0] == "f"}
            nf = collapse(r - fr)
            fr2 = set(sorted(fr, key=str)[:8])
            r = nf | fr2
        return frozenset(r)

    def put(self, o: Origin, fld: str, v: Iterable) -> None:
        if not v:
            return
        cell = self.heap.setdefault(o, {}).setdefault(fld, set())
        n0 = len(cell)
        cell.update(v)
        if len(cell) != n0:
            self.hv += 1
        if len(cell) > 24:
            lim = self.limit(cell)
            cell.clear()
            cell.update(lim)

    def store(self, tgt: Iterable, fld: str, val: Val) -> None:
        for o in tgt:
            if val:
                self.put(o, fld, val)
            if o[0][0] != "f":
                for v in val:
                    self.s.stores.add((o, fld, v))

    def fresh(self, node: ast.AST, tag: str = "") -> Origin:
        return (("f", (f"{self.cur.qual}:{node.lineno}:{node.col_offset}", tag)), ())  # type: ignore

    def mutate(self, v: Iterable, attr: str, node: ast.AST, recv: Optional[ast.AST]) -> None:
        attr = self.e.links.get(attr, attr)
        if recv is not None:
            cl = self.p.classes_of(self.mod, recv) - {"None"}
            cls = "|".join(sorted(cl))
        else:
            cls = ""
        for o in v:
            if o[0][0] == "f":
                continue
            m = Mut(o[0], o[1], attr, cls, self.cur.loc(node), self.cur.qual, _snip(node))
            self.s.muts.setdefault(m.key(), m)
            self.local_muts.append(m)

    # ---------------------------------------------------------------- statements
    def block(self, body: list, env: dict) -> Optional[dict]:
        cur: Optional[dict] = env
        for st in body:
            if cur is None:
                return None
            cur = self.stmt(st, cur)
        return cur

    @staticmethod
    def join(a: Optional[dict], b: Optional[dict]) -> Optional[dict]:
        if a is None:
            return b
        if b is None:
            return a
        r = dict(a)
        for k, v in b.items():
            r[k] = r[k] | v if k in r else v
        return r

    def stmt(self, st: ast.stmt, env: dict) -> Optional[dict]:
        if isinstance(st, ast.Expr):
            self.ev(st.value, env)
            return env
        if isinstance(st, ast.Assign):
            v = self.ev(st.value, env)
            for t in st.targets:
                self.assign(t, v, env, st, st.value)
            return env
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                v = self.ev(st.value, env)
                self.assign(st.target, v, env, st, st.value)
            return env
        if isinstance(st, ast.AugAssign):
            v = self.ev(st.value, env)
            if isinstance(st.target, ast.Name):
                if not self.e.immutable(self.mod, st.target) and st.target.id in env:
                    cl = self.p.classes_of(self.mod, st.target)
                    if cl & {"builtins.list", "builtins.dict", "builtins.set", "collections.deque"} or not cl:
                        self.mutate(env[st.target.id], "[]", st, st.target)
                        self.store(env[st.target.id], "[]", self.loads(v, "[]"))
                self._global_rebind(st.target.id, env, st, v)
            else:
                self.assign(st.target, v, env, st, None)
                if isinstance(st.target, ast.Attribute) and not self.e.immutable(self.mod, st.target):
                    base = self.ev(st.target.value, env)
                    o = self.loads(base, st.target.attr)
                    self.mutate(o, "[]", st, st.target)
            return env
        if isinstance(st, ast.Return):
            if st.value is not None:
                v = self.ev(st.value, env)
                if not self.e.immutable(self.mod, st.value):
                    self.retvals |= v
            return None
        if isinstance(st, ast.Raise):
            if st.exc is not None:
                self.ev(st.exc, env)
            return None
        if isinstance(st, ast.If):
            self.ev(st.test, env)
            a = self.block(st.body, dict(env))
            b = self.block(st.orelse, dict(env))
            return self.join(a, b)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter, env)
            elem = self.loads(it, "[]")
            if self.e.immutable(self.mod, st.target) and isinstance(st.target, ast.Name):
                elem = EMPTY
            self.loop_brk.append([])
            cur = dict(env)
            for _ in range(3):
                b = dict(cur)
                self.assign(st.target, elem, b, st, None, elem_of=True)
                out = self.block(st.body, b)
                for x in self.loop_brk[-1]:
                    out = self.join(out, x)
                nxt = self.join(cur, out)
                assert nxt is not None
                if nxt == cur:
                    break
                cur = nxt
            self.loop_brk.pop()
            if st.orelse:
                return self.join(cur, self.block(st.orelse, dict(cur)))
            return cur
        if isinstance(st, ast.While):
            self.loop_brk.append([])
            cur = dict(env)
            for _ in range(3):
                self.ev(st.test, cur)
                out = self.block(st.body, dict(cur))
                for x in self.loop_brk[-1]:
                    out = self.join(out, x)
                nxt = self.join(cur, out)
                assert nxt is not None
                if nxt == cur:
                    break
                cur = nxt
            self.loop_brk.pop()
            return cur
        if isinstance(st, (ast.Break, ast.Continue)):
            if self.loop_brk:
                self.loop_brk[-1].append(dict(env))
            return None
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                v = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env, st, None)
            return self.block(st.body, env)
        if isinstance(st, ast.Try):
            pre = dict(env)
            a = self.block(st.body, dict(env))
            mid = self.join(pre, a)
            res = a
            if a is not None and st.orelse:
                res = self.block(st.orelse, a)
            for h in st.handlers:
                henv = dict(mid or pre)
                if h.name:
                    henv[h.name] = EMPTY
                res = self.join(res, self.block(h.body, henv))
            if st.finalbody:
                fin_in = res if res is not None else dict(mid or pre)
                o = self.block(st.finalbody, dict(fin_in))
                return o if res is not None else None
            return res
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Attribute):
                    self.mutate(self.ev(t.value, env), t.attr, st, t.value)
                elif isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value, env), "[]", st, t.value)
            return env
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env[st.name] = EMPTY
            self.nested_env[st] = env
            f = self.p.func_of_node.get(st)
            if f is not None and self.depth < 3:
                self._nested(f, env, None)
            return env
        if isinstance(st, ast.Assert):
            self.ev(st.test, env)
            return env
        if isinstance(st, ast.Match):
            v = self.ev(st.subject, env)
            res = dict(env)
            for c in st.cases:
                b = dict(env)
                for n in ast.walk(c.pattern):
                    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                        b[n.name] = v
                r = self.block(c.body, b)
                j = self.join(res, r)
                assert j is not None
                res = j
            return res
        if isinstance(st, ast.ClassDef):
            return env
        return env



    def _nested(self, f: Func, env: dict, argvals: Optional[list]) -> Val:
        """analyse a nested function's body in the environment of its definition"""
        mk = (f.node, tuple(argvals) if argvals is not None else None)
        if mk in self.memo:
            return self.memo[mk]
        self.memo[mk] = EMPTY
        save_ret, save_cur, save_lb = self.retvals, self.cur, self.loop_brk
        self.retvals = set()
        self.cur = f
        self.loop_brk = []
        self.depth += 1
        e2 = dict(env)
        for i, prm in enumerate(f.params):
            e2[prm] = argvals[i] if argvals is not None and i < len(argvals) else EMPTY
        nl = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Nonlocal):
                nl |= set(n.names)
        out = self.block(f.body, e2)
        if out:
            for n in nl:
                if n in out:
                    env[n] = env.get(n, EMPTY) | out[n]
        r = frozenset(self.retvals)
        self.depth -= 1
        self.retvals, self.cur, self.loop_brk = save_ret, save_cur, save_lb
        self.memo[mk] = r
        return r

    def _global_rebind(self, name: str, env: dict, node: ast.AST, v: Val) -> None:
        f: Optional[Func] = self.cur
        while f is not None:
            g = self.e._c_globals.get(f.qual)
            if g is None:
                g = set()
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Global):
                        g |= set(n.names)
                self.e._c_globals[f.qual] = g
            if name in g:
                self.mutate({(("g", f"{self.mod.name}.{name}"), ())}, "=", node, None)
                return
            f = f.parent

    def assign(self, t: ast.AST, v: Val, env: dict, st: ast.AST, value: Optional[ast.AST], elem_of: bool = False) -> None:
        if isinstance(t, ast.Name):
            if value is not None and self.e.immutable(self.mod, value):
                v = EMPTY
            env[t.id] = v
            self._global_rebind(t.id, env, st, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, v, env, st, None)
                else:
                    if value is not None and isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                        self.assign(x, self.ev(value.elts[i], env), env, st, value.elts[i])
                    else:
                        sub = self.loads(v, "[]")
                        if self.e.immutable(self.mod, x):
                            sub = EMPTY
                        self.assign(x, sub, env, st, None)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, env)
            # class attribute / module attribute
            gl = self._static_target(t)
            if gl is not None:
                self.mutate({gl}, "=", st, None)
                return
            done = False
            for c in sorted(self.p.classes_of(self.mod, t.value)):
                for q in self.p.mro(c):
                    f = self.p.funcs.get(f"{q}.{t.attr}@setter")
                    if f is not None and t.attr in self.e.links.values():
                        break
                    if f is not None:
                        self.apply(f, [base, v], st)
                        done = True
                        break
            if not done:
                self.mutate(base, t.attr, st, t.value)
                if value is None or not self.e.immutable(self.mod, value):
                    self.store(base, self.e.links.get(t.attr, t.attr), v)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.mutate(base, "[]", st, t.value)
            self.store(base, "[]", v if (value is None or not self.e.immutable(self.mod, value)) else EMPTY)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, st, None)

    def _static_target(self, t: ast.Attribute) -> Optional[Origin]:
        """Class.attr = / cls.attr = / module.attr = / type(self).attr ="""
        mt = self.p.mtype(self.mod, t.value)
        c = type_object_class(mt)
        if c:
            return (("c", f"{c}.{t.attr}"), ())
        if isinstance(t.value, ast.Name):
            if self.cur.is_classmethod and self.cur.params and t.value.id == self.cur.params[0]:
                return (("c", f"{self.cur.cls.full if self.cur.cls else '?'}.{t.attr}"), ())
        if isinstance(t.value, (ast.Name, ast.Attribute)):
            e = self.p.mnode(self.mod, t.value)
            n = getattr(e, "node", None)
            if n is not None and type(n).__name__ == "MypyFile":
                return (("g", f"{n.fullname}.{t.attr}"), ())
            if n is not None and type(n).__name__ in ("FuncDef", "Decorator", "OverloadedFuncDef"):
                return (("g", f"{getattr(n, 'fullname', '?')}.{t.attr}"), ())
        if isinstance(t.value, ast.Call) and dotted(t.value.func) == "type":
            return (("c", f"type().{t.attr}"), ())
        if isinstance(t.value, ast.Attribute) and t.value.attr == "__class__":
            return (("c", f"__class__.{t.attr}"), ())
        return None

    # ---------------------------------------------------------------- expressions
    def ev(self, n: Optional[ast.AST], env: dict) -> Val:
        if n is None:
            return EMPTY
        v = self._ev(n, env)
        if v and isinstance(n, ast.expr):
            if self.e.immutable(self.mod, n):
                return EMPTY
            # options objects met anywhere
            if isinstance(n, (ast.Attribute, ast.Call)):
                cl = self.p.classes_of(self.mod, n)
                if cl & self.e.context_full:
                    return frozenset({o if o[0][0] == "f" and o[0][1][1] != "*" else (("X", sorted(cl & self.e.context_full)[0]), ()) for o in v})
                hit = cl & self.e.options_full
                if hit:
                    if isinstance(n, ast.Attribute) and self.e.attr_fresh.get(n.attr) and self.cur.cls is not None:
                        return frozenset({self.fresh(n, "ownoptions")})
                    out = set()
                    for o in v:
                        if o[0][0] == "f" and o[0][1][1] != "*":
                            out.add(o)
                        elif o[0][0] == "f":
                            out.add((("O", sorted(hit)[0]), ()))
                        else:
                            out.add((("O", sorted(hit)[0]), ()))
                    return frozenset(out)
        return v

    def _ev(self, n: ast.AST, env: dict) -> Val:
        if isinstance(n, ast.Name):
            if n.id in env:
                return env[n.id]
            return self._global_name(n)
        if isinstance(n, ast.Constant):
            return EMPTY
        if isinstance(n, ast.Attribute):
            return self._attr(n, env)
        if isinstance(n, ast.Call):
            return self._call(n, env)
        if isinstance(n, ast.Subscript):
            b = self.ev(n.value, env)
            self.ev(n.slice, env)
            if isinstance(n.slice, ast.Slice):
                fr = self.fresh(n)
                self.put(fr, "[]", self.loads(b, "[]"))
                return frozenset({fr})
            return self.loads(b, "[]")
        if isinstance(n, ast.BoolOp):
            r: Val = EMPTY
            for v in n.values:
                r = r | self.ev(v, env)
            return r
        if isinstance(n, ast.IfExp):
            self.ev(n.test, env)
            return self.ev(n.body, env) | self.ev(n.orelse, env)
        if isinstance(n, ast.BinOp):
            a, b = self.ev(n.left, env), self.ev(n.right, env)
            if isinstance(n.op, (ast.Add, ast.BitOr)) and (a or b):
                fr = self.fresh(n)
                self.put(fr, "[]", self.loads(a, "[]") | self.loads(b, "[]"))
                return frozenset({fr})
            return EMPTY
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            fr = self.fresh(n)
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    self.put(fr, "[]", self.loads(self.ev(x.value, env), "[]"))
                else:
                    self.put(fr, "[]", self.ev(x, env))
            return frozenset({fr})
        if isinstance(n, ast.Dict):
            fr = self.fresh(n)
            for k, v2 in zip(n.keys, n.values):
                if k is not None:
                    self.ev(k, env)
                    self.put(fr, "[]", self.ev(v2, env))
                else:
                    self.put(fr, "[]", self.loads(self.ev(v2, env), "[]"))
            return frozenset({fr})
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            e2 = dict(env)
            for g in n.generators:
                it = self.ev(g.iter, e2)
                self.assign(g.target, self.loads(it, "[]"), e2, n, None)
                for c in g.ifs:
                    self.ev(c, e2)
            fr = self.fresh(n)
            if isinstance(n, ast.DictComp):
                self.ev(n.key, e2)
                v3 = self.ev(n.value, e2)
            else:
                v3 = self.ev(n.elt, e2)
            self.put(fr, "[]", v3)
            return frozenset({fr})
        if isinstance(n, ast.NamedExpr):
            v4 = self.ev(n.value, env)
            env[n.target.id] = v4
            return v4
        if isinstance(n, ast.Lambda):
            f = self.p.func_of_node.get(n)
            if f is not None and self.depth < 3:
                self._nested(f, env, None)
            return EMPTY
        if isinstance(n, ast.Starred):
            return self.ev(n.value, env)
        if isinstance(n, ast.Await):
            return self.ev(n.value, env)
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            if n.value is not None:
                v5 = self.ev(n.value, env)
                fr = (("f", (f"{self.cur.qual}:yield", "")), ())
                self.put(fr, "[]", v5)
                self.retvals.add(fr)
            return EMPTY
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env)
            elif isinstance(c, ast.FormattedValue):
                self.ev(c.value, env)
        return EMPTY

    def _global_name(self, n: ast.Name) -> Val:
        e = self.p.mnode(self.mod, n)
        full = getattr(e, "fullname", "") or ""
        nd = getattr(e, "node", None)
        if nd is not None and type(nd).__name__ == "Var" and "." in full:
            mod = full.rsplit(".", 1)[0]
            if mod in self.p.modules:
                return frozenset({(("g", full), ())})
        if nd is None and n.id in self.e.module_vars.get(self.mod.name, ()):
            return frozenset({(("g", f"{self.mod.name}.{n.id}"), ())})
        return EMPTY

    def _attr(self, n: ast.Attribute, env: dict) -> Val:
        attr = self.e.links.get(n.attr, n.attr)
        e = self.p.mnode(self.mod, n)
        nd = getattr(e, "node", None)
        full = getattr(e, "fullname", "") or ""
        # module.var
        if nd is not None and type(nd).__name__ == "Var" and full and isinstance(n.value, (ast.Name, ast.Attribute)):
            ve = self.p.mnode(self.mod, n.value)
            vn = getattr(ve, "node", None)
            if vn is not None and type(vn).__name__ == "MypyFile":
                return frozenset({(("g", full), ())})
        c = type_object_class(self.p.mtype(self.mod, n.value))
        if c and c in self.p.classes:
            for q in self.p.mro(c):
                if n.attr in self.e.class_level.get(q, {}):
                    return frozenset({(("c", f"{q}.{n.attr}"), ())})
        base = self.ev(n.value, env)
        cls = self.p.classes_of(self.mod, n.value)
        r: set = set()
        for k in sorted(cls):
            m = self.p.find_method(k, n.attr) if k in self.p.classes else None
            if m is not None and attr not in self.e.links.values():
                if m.is_property:
                    for t in self.p.method_targets(k, n.attr):
                        r |= self.apply(t, [base], n)
                    return self.limit(r)
                return EMPTY
            # class level shared variable
            if k in self.p.classes:
                for q in self.p.mro(k):
                    val = self.e.class_level.get(q, {}).get(n.attr)
                    if val is not None and not isinstance(val, ast.Constant):
                        r.add((("c", f"{q}.{n.attr}"), ()))
                        break
        return self.loads(base, attr) | frozenset(r)

    # ---------------------------------------------------------------- calls
    def _call(self, n: ast.Call, env: dict) -> Val:
        self.e.n_calls += 1
        funcs, ext = self.p.callees(self.mod, n)
        args = [self.ev(a, env) for a in n.args]
        kws = {k.arg: self.ev(k.value, env) for k in n.keywords}
        recv: Val = EMPTY
        is_method = isinstance(n.func, ast.Attribute)
        if is_method:
            if isinstance(n.func.value, ast.Call) and dotted(n.func.value.func) == "super":  # type: ignore
                f0: Optional[Func] = self.cur
                while f0 is not None and f0.cls is None:
                    f0 = f0.parent
                if f0 is not None and f0.params:
                    recv = env.get(f0.params[0], EMPTY)
            else:
                recv = self.ev(n.func.value, env)  # type: ignore
        # callbacks given as arguments: their parameters may be anything reachable from the other arguments
        for a in list(n.args) + [k.value for k in n.keywords]:
            cb = self._callback(a)
            if cb is not None and self.depth < 3:
                reach = set()
                for v in [recv] + args + list(kws.values()):
                    for o in v:
                        if o[0][0] != "f":
                            reach.add((o[0], (o[1] + (STAR,)) if not (o[1] and o[1][-1] == STAR) else o[1]))
                        else:
                            reach |= self._fresh_reach(o)
                self._nested(cb, env, [frozenset(reach)] * len(cb.params))
        cc = self.p.constructed_class(self.mod, n)
        if cc is not None:
            fr = self.fresh(n)
            if cc in self.p.classes:
                inits = [x for x in (self.p.find_method(cc, "__init__"), self.p.find_method(cc, "__post_init__")) if x is not None]
                if not any(x.name == "__init__" for x in inits):
                    # dataclass: generated __init__
                    flds = self._dataclass_fields(cc)
                    for i, a in enumerate(args):
                        if i < len(flds):
                            self.put(fr, flds[i], a)
                    for k2, a in kws.items():
                        if k2:
                            self.put(fr, k2, a)
                for x in inits:
                    self.apply(x, [frozenset({fr})] + (args if x.name == "__init__" else []), n, kws if x.name == "__init__" else {})
            else:
                for a in args:
                    if cc.startswith("builtins.") or cc.startswith("collections."):
                        self.put(fr, "[]", self.loads(a, "[]"))
                    else:
                        self.put(fr, "[]", a)
            return frozenset({fr})
        if funcs:
            self.e.n_resolved += 1
            res: set = set()
            for f in funcs:
                a2 = list(args)
                if f.parent is not None and not (f.cls is not None):
                    # local function: inline it
                    if self.depth < 3 and f.node in self.nested_env:
                        kwl = [kws.get(prm, EMPTY) if i >= len(args) else args[i] for i, prm in enumerate(f.params)]
                        res |= self._nested(f, self.nested_env[f.node], kwl)
                    continue
                if f.cls is not None and not f.is_static:
                    if is_method:
                        explicit = type_object_class(self.p.mtype(self.mod, n.func.value)) is not None and not f.is_classmethod  # type: ignore
                        if not explicit:
                            a2 = [recv] + a2
                    else:
                        a2 = [recv] + a2
                res |= self.apply(f, a2, n, kws, star=any(isinstance(a, ast.Starred) for a in n.args))
            return self.limit(res)
        # ---- external
        name = ext
        last = name.split(".")[-1] if name else ""
        if name in DEEP_FUNCS:
            return frozenset({self.fresh(n)})
        if name == "copy.copy" or name in ("dataclasses.replace",):
            fr = self.fresh(n)
            if args:
                self.shallow.setdefault(fr, set()).update(args[0])
            return frozenset({fr})
        if name in IDENTITY_FUNCS:
            return args[1] if len(args) > 1 else EMPTY
        if name in ("builtins.setattr", "setattr", "builtins.delattr") and args:
            self.mutate(args[0], "setattr", n, n.args[0])
            if len(args) > 2:
                self.store(args[0], STAR, args[2])
            return EMPTY
        if name in ("builtins.getattr", "getattr", "builtins.vars", "vars") and args:
            return frozenset({(o[0], o[1] + (STAR,)) if o[0][0] != "f" and not (o[1] and o[1][-1] == STAR) else o for o in args[0]})
        if name in ("random.shuffle", "heapq.heappush", "heapq.heappop", "heapq.heapify", "builtins.list.sort") and args:
            self.mutate(args[0], "[]", n, n.args[0])
            return EMPTY
        if name in ("os.chdir", "os.putenv", "os.unsetenv", "os.umask", "locale.setlocale", "sys.setrecursionlimit", "logging.basicConfig",
                    "logging.disable", "random.seed", "warnings.filterwarnings", "warnings.simplefilter", "sys.path.append", "sys.path.insert"):
            self.mutate({(("g", name), ())}, "()", n, None)
        if name in SHALLOW_FUNCS or name in ELEMENT_FUNCS:
            if name in ELEMENT_FUNCS:
                r: set = set()
                for a in args:
                    r |= self.loads(a, "[]")
                return self.limit(r)
            fr = self.fresh(n)
            for a in args:
                self.put(fr, "[]", self.loads(a, "[]"))
            return frozenset({fr})
        if is_method and not isinstance(n.func.value, ast.Call) or (is_method and recv):  # type: ignore
            meth = n.func.attr  # type: ignore
            cl = self.p.classes_of(self.mod, n.func.value)  # type: ignore
            ext_mod = self.p.mnode(self.mod, n.func.value) if isinstance(n.func.value, (ast.Name, ast.Attribute)) else None  # type: ignore
            if ext_mod is not None and type(getattr(ext_mod, "node", None)).__name__ == "MypyFile":
                fr = self.fresh(n)
                return frozenset({fr})
            if meth in MUTATORS and not (cl and cl <= IMMUTABLE):
                self.mutate(recv, "[]", n, n.func.value)  # type: ignore
                if meth in STORERS and args:
                    i = min(STORERS[meth], len(args) - 1)
                    self.store(recv, "[]", args[i])
                if meth in EXTENDERS:
                    for a in args:
                        self.store(recv, "[]", self.loads(a, "[]"))
            if meth == "copy":
                fr = self.fresh(n)
                self.put(fr, "[]", self.loads(recv, "[]"))
                return frozenset({fr})
            if meth in ELEMENT_GETTERS:
                r2 = set(self.loads(recv, "[]"))
                for a in args[1:]:
                    r2 |= a
                if meth in ("values", "items", "findall"):
                    fr = self.fresh(n)
                    self.put(fr, "[]", r2)
                    if meth == "items":
                        fr2 = self.fresh(n, "item")
                        self.put(fr2, "[]", r2)
                        self.heap.setdefault(fr, {})["[]"] = {fr2}
                    return frozenset({fr})
                return self.limit(r2)
        return frozenset({self.fresh(n)})

    def _fresh_reach(self, o: Origin) -> set:
        mm = self.reach_memo.get(o)
        if mm is not None and mm[0] == self.hv:
            return mm[1]
        out: set = set()
        todo = [o]
        seen = {o}
        while todo and len(seen) < 50:
            x = todo.pop()
            for vs in self.heap.get(x, NODICT).values():
                for v in vs:
                    if v[0][0] == "f":
                        if v not in seen:
                            seen.add(v)
                            todo.append(v)
                    else:
                        out.add((v[0], v[1] + (STAR,)) if not (v[1] and v[1][-1] == STAR) else v)
            for v in self.shallow.get(x, ()):
                if v[0][0] != "f":
                    out.add((v[0], v[1] + (STAR,)) if not (v[1] and v[1][-1] == STAR) else v)
        out = collapse(out)
        self.reach_memo[o] = (self.hv, out)
        return out

    def _callback(self, a: ast.AST) -> Optional[Func]:
        if isinstance(a, ast.Lambda):
            return self.p.func_of_node.get(a)
        if isinstance(a, ast.Name):
            for node in self.nested_env:
                if getattr(node, "name", None) == a.id:
                    return self.p.func_of_node.get(node)
        return None

    def _dataclass_fields(self, c: str) -> list[str]:
        out: list[str] = []
        for q in reversed(self.p.mro(c)):
            k = self.p.classes.get(q)
            if k is None:
                continue
            for st in k.node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id not in out:
                    out.append(st.target.id)
        return out

    def resolve(self, o: Origin, argmap: dict, site: ast.AST) -> set:
        root, path = o
        if root[0] == "p":
            cur = argmap.get(root[1], EMPTY)
            for fld in path:
                if fld == STAR:
                    nxt = set()
                    for x in cur:
                        if x[0][0] == "f":
                            nxt.add(x)
                            nxt |= self._fresh_reach(x)
                        else:
                            nxt.add((x[0], x[1] + (STAR,)) if not (x[1] and x[1][-1] == STAR) else x)
                    cur = frozenset(nxt)
                else:
                    cur = self.loads(cur, fld)
            return set(cur)
        if root[0] == "f":
            site_id, tag = root[1]
            return {(("f", (f"{self.cur.qual}:{site.lineno}:{site.col_offset}", f"{site_id}#{tag}" if len(str(tag)) < 4 else str(site_id))), ())}  # type: ignore
        return {o}

    def apply(self, f: Func, args: list, site: ast.AST, kws: Optional[dict] = None, star: bool = False) -> set:
        self.called.add(f.qual)
        s = self.e.sum.get(f.qual)
        if s is None:
            return set()
        argmap: dict[int, Val] = {}
        params = f.params
        for i, a in enumerate(args):
            argmap[min(i, max(len(params) - 1, 0))] = argmap.get(min(i, max(len(params) - 1, 0)), EMPTY) | a
        for k, a in (kws or {}).items():
            if k in params:
                argmap[params.index(k)] = a
        # default values which are shared objects
        for i, prm in enumerate(params):
            if i not in argmap:
                d = _default_of(f, prm)
                if d is not None and isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
                    argmap[i] = frozenset({(("g", f"default of {f.qual}({prm})"), ())})
        # fresh heap of the result
        for (r, fld), vs in s.fheap.items():
            for t in self.resolve((r, ()), argmap, site):
                for v in vs:
                    self.put(t, fld, self.resolve(v, argmap, site))
        for r, vs in s.shallow.items():
            for t in self.resolve((r, ()), argmap, site):
                for v in vs:
                    self.shallow.setdefault(t, set()).update(self.resolve(v, argmap, site))
        for (tgt, fld, v) in list(s.stores):
            for t in self.resolve(tgt, argmap, site):
                vals = self.resolve(v, argmap, site)
                self.store({t}, fld, frozenset(vals))
        for m in list(s.muts.values()):
            for t in self.resolve((m.root, m.path), argmap, site):
                if t[0][0] == "f":
                    continue
                ch = ((self.cur.loc(site), f.qual),) + m.chain
                m2 = Mut(t[0], t[1], m.attr, m.cls, m.loc, m.func, m.snippet, ch[:8])
                self.s.muts.setdefault(m2.key(), m2)
        out: set = set()
        for o in s.ret:
            out |= self.resolve(o, argmap, site)
        return out


def link_attrs(p: Project) -> dict[str, str]:
    """The link of an element to its parent may be a property: attribute which holds it → name of the property.
    Such a property is analysed as the attribute it stands for"""
    out: dict[str, str] = {}
    for q, f in p.funcs.items():
        if q.endswith(".parent@setter"):
            for n in p.own_nodes(f):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in f.params[1:]:
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.params[0]:
                            out[t.attr] = "parent"
    return out


def collapse(os: Iterable, limit: int = 5) -> set:
    """merge the paths of a root when they are too many"""
    by: dict = {}
    for (root, path) in os:
        by.setdefault(root, set()).add(path)
    out: set = set()
    for root, paths in by.items():
        for cut in (K, 2, 1, 0):
            if len(paths) <= limit:
                break
            paths = {p if len(p) <= cut else p[:cut] + (STAR,) for p in paths}
        out |= {(root, p) for p in paths}
    return out


def _default_of(f: Func, prm: str) -> Optional[ast.expr]:
    a = f.node.args  # type: ignore
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if x.arg == prm:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == prm:
            return d
    return None


def _snip(n: ast.AST) -> str:
    try:
        s = ast.unparse(n)
    except Exception:
        s = type(n).__name__
    return " ".join(s.split())[:100]
