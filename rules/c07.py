"""C07: the stub and the binding code describe the same API.

Each kind of adapted element renders itself twice: stub (stub_lines) and binding code (pydef_lines).

(both)    a class of adapted elements overrides both renderings or neither (down from the base class)
(walk)    the two renderings of a container render the elements of the same lists: same origin, after copies, filters and partitions
(filter)  an element of such a list is left out of one rendering only when its class renders nothing there; a condition on
          anything else is tested by the other rendering too
(name)    the name written in the stub ("class X", "def X(", "X: type", "X = ") and the name given to the binding ("X" in def,
          value, attr, class_, enum_, def_submodule) are the same expression, after opening local variables and accessors
(param)   the names of the parameters come from the same naming function
(bases)   the base classes published by both sides are those of the same access types
(helper)  the two halves of a helper (stub_code / pydef_code) are used under the same conditions"""
from __future__ import annotations

import ast
import itertools
import re
from typing import Iterator, Optional

TECHNIQUE = "symbolic comparison of the two renderings of each adapted class: origins of the rendered children, conditions which skip them, and expressions written at the name positions of the output templates"
LEVEL_NOTE = ("Decides which elements and which names go to both outputs; types, default values, signatures and comments of the stub are not compared with the binding. "
              "A name or an origin which the analysis cannot resolve on one side is not compared.")

from vlib.report import Report
from vlib.project import AnalysisError, Func, Project

STUB = {"stub_lines", "str_stub"}
PYDEF = {"pydef_lines", "str_pydef"}
MARK = re.compile("\u27e6(\\d+)\u27e7")


class Rule:
    def __init__(self, p: Project, rep: Report):
        self.p, self.rep = p, rep
        self.base = p.cls("AdaptedElement").full
        self.classes = [c for c in p.subtypes(self.base)]
        self._defs: dict = {}
        self._closure: list[Func] = []

    # --- resolution of expressions -----------------------------------------------------------------------------------
    def defs(self, f: Func, name: str) -> list[tuple[str, ast.AST, Func]]:
        """(kind, expression, function) which may define a local name, lexical parents included"""
        key = (f.qual, name)
        if key in self._defs:
            return self._defs[key]
        out: list[tuple[str, ast.AST, Func]] = []
        g: Optional[Func] = f
        while g is not None:
            if name in g.params:
                out = [("param", g.node, g)]
                break
            for n in self.p.own_nodes(g):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Name) and t.id == name:
                            out.append(("assign", n.value, g))
                        elif isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(x, ast.Name) and x.id == name for x in t.elts):
                            out.append(("part", n.value, g))
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                    out.append(("aug", n, g))
                elif isinstance(n, (ast.For, ast.comprehension)):
                    names = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                    if name in names:
                        out.append(("loop", n.iter, g))
                elif isinstance(n, ast.NamedExpr) and n.target.id == name:
                    out.append(("assign", n.value, g))
                elif isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name) and n.optional_vars.id == name:
                    out.append(("part", n.context_expr, g))
            if out:
                break
            g = g.parent
        self._defs[key] = out
        return out

    def reaching(self, f: Func, e: ast.Name, ds: list) -> list:
        """The definitions which may reach a use: those after it (outside loops) and those overwritten before it are left out"""
        if len(ds) < 2 or any(d[0] not in ("assign", "aug") or d[2] is not f for d in ds):
            return ds
        chain, loops = [], []
        cur: ast.AST = e
        while cur is not f.node and cur is not None:
            chain.append(cur)
            if isinstance(cur, (ast.For, ast.While)):
                loops.append(cur)
            cur = self.p.parent_of.get(cur)  # type: ignore
        if cur is None:
            return ds
        got = []
        for d in ds:
            st: ast.AST = d[1]
            while not isinstance(st, ast.stmt):
                st = self.p.parent_of[st]
            in_loop = any(st in list(ast.walk(lp)) for lp in loops)
            if (st in chain or st.lineno >= e.lineno) and not in_loop:
                continue
            got.append((d, st, in_loop))
        kill = -1
        for d, st, in_loop in got:
            if d[0] in ("assign", "aug") and not in_loop and (self.p.parent_of.get(st) is f.node or self.p.parent_of.get(st) in chain) and not isinstance(st, (ast.For, ast.If)):
                par = self.p.parent_of.get(st)
                bodies = [b for b in (getattr(par, "body", None), getattr(par, "orelse", None), getattr(par, "finalbody", None)) if isinstance(b, list) and st in b]
                if bodies and any(x in chain for x in bodies[0]):
                    kill = max(kill, st.lineno)
        return [d for d, st, in_loop in got if in_loop or st.lineno >= kill]

    def method(self, cls: str, name: str) -> Optional[Func]:
        return self.p.find_method(cls, name)

    def single_return(self, g: Func) -> Optional[ast.AST]:
        body = [s for s in g.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, (ast.Import, ast.ImportFrom, ast.Assert))]
        rets = [n for n in self.p.own_nodes(g) if isinstance(n, ast.Return)]
        if len(rets) == 1 and rets[0].value is not None and body and body[-1] is rets[0] and all(isinstance(s, (ast.Assign, ast.AnnAssign, ast.Pass)) for s in body[:-1]):
            return rets[0].value
        return None

    def canon(self, cls: str, f: Func, e: ast.AST, used: frozenset = frozenset(), depth: int = 0) -> set[str]:
        """Texts of an expression, local variables and one-line accessors being opened; several when it has alternatives"""
        if depth > 9:
            return {ast.unparse(e)}
        if isinstance(e, ast.Name):
            if e.id in ("self", "cls"):
                return {"self"}
            ds = self.reaching(f, e, self.defs(f, e.id))
            if not ds:
                return {e.id}
            if ds[0][0] == "param":
                return {"param " + e.id}
            out: set[str] = set()
            for k, v, g in ds:
                if id(v) in used:
                    continue
                if k == "assign":
                    out |= self.canon(cls, g, v, used | {id(v)}, depth + 1)
                elif k == "aug":
                    assert isinstance(v, ast.AugAssign)
                    others = self.canon(cls, g, v.target, used | {id(v)}, depth + 1)
                    add = self.canon(cls, g, v.value, used | {id(v)}, depth + 1)
                    out |= {f"{a} ++ {b}" for a in others for b in add}
                else:
                    out |= {f"{k} of {c}" for c in self.canon(cls, g, v, used | {id(v)}, depth + 1)}
            return set(sorted(out)[:8])
        if isinstance(e, ast.Constant):
            return {repr(e.value)}
        if isinstance(e, ast.IfExp):
            return self.canon(cls, f, e.body, used, depth) | self.canon(cls, f, e.orelse, used, depth)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return {f"{a} ++ {b}" for a in self.canon(cls, f, e.left, used, depth) for b in self.canon(cls, f, e.right, used, depth)}
        if isinstance(e, ast.JoinedStr):
            parts = [self.canon(cls, f, v.value, used, depth) if isinstance(v, ast.FormattedValue) else {repr(v.value)} for v in e.values]  # type: ignore
            return {" ++ ".join(c) for c in itertools.islice(itertools.product(*[sorted(x) for x in parts]), 8)}
        if isinstance(e, ast.Attribute):
            return {f"{c}.{e.attr}" for c in self.canon(cls, f, e.value, used, depth)}
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ("str", "cast", "list", "sorted", "reversed", "tuple", "iter", "copy") and e.args and not e.keywords:
                return self.canon(cls, f, e.args[-1], used, depth)
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "self" and not e.args and not e.keywords:
                g = self.method(cls, e.func.attr)
                if g is not None and id(g.node) not in used:
                    r = self.single_return(g)
                    if r is not None:
                        return self.canon(cls, g, r, used | {id(g.node)}, depth + 1)
            # a one-line function of the program is opened, with its arguments
            tg, _ = self.p.callees(f.module, e)
            h0 = tg[0] if len(tg) == 1 else None
            if h0 is None and isinstance(e.func, ast.Name):
                h0 = self.local_function(f, e.func.id)
            r = self.single_return(h0) if h0 is not None and id(h0.node) not in used else None
            if r is not None and h0 is not None and not any(isinstance(a, ast.Starred) for a in e.args):
                ps = [q for q in h0.params if q not in ("self", "cls")]
                bound = {**dict(zip(ps, e.args)), **{k.arg: k.value for k in e.keywords if k.arg}}
                out = self.canon(cls, h0, r, used | {id(h0.node)}, depth + 1)
                if isinstance(e.func, ast.Attribute) and h0.params[:1] == ["self"]:
                    recv = self.canon(cls, f, e.func.value, used, depth)
                    out = {re.sub(r"\bself\b", lambda _: c, t) for t in out for c in recv}
                for q, a in bound.items():
                    alts = sorted(self.canon(cls, f, a, used, depth))
                    out = {re.sub(rf"\bparam {q}\b", lambda _: c, t) for t in out for c in alts}
                if not any(re.search(rf"\bparam {q}\b", t) for q in ps for t in out):
                    return set(sorted(out)[:8])
            args = [self.canon(cls, f, a, used, depth) for a in e.args] + [{f"{k.arg}={c}" for c in self.canon(cls, f, k.value, used, depth)} for k in e.keywords]
            fn = self.canon(cls, f, e.func, used, depth) if isinstance(e.func, ast.Attribute) else {ast.unparse(e.func)}
            return {f"{h}({', '.join(c)})" for h in fn for c in itertools.islice(itertools.product(*[sorted(x) for x in args]), 8)}
        return {ast.unparse(e)}

    # --- what a rendering is made of -----------------------------------------------------------------------------------
    def closure(self, cls: str, root: str) -> list[Func]:
        """The functions which make a rendering of an element: its own methods, and the functions nested in them"""
        start = self.method(cls, root)
        out: list[Func] = []
        todo = [start] if start is not None else []
        while todo:
            f = todo.pop()
            if f in out:
                continue
            out.append(f)
            for g in self.p.all_funcs():
                if g.parent is f and not isinstance(g.node, ast.Lambda):
                    todo.append(g)
            for n in self.p.own_nodes(f):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    v = n.func.value
                    if isinstance(v, ast.Name) and v.id == "self":
                        g = self.method(cls, n.func.attr)
                        if g is not None:
                            todo.append(g)
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                        mro = self.p.mro(cls)
                        for c in mro[mro.index(f.cls.full) + 1:] if f.cls is not None and f.cls.full in mro else []:
                            if c in self.p.classes and n.func.attr in self.p.classes[c].methods:
                                todo.append(self.p.classes[c].methods[n.func.attr])
                                break
        return out

    # --- (both) ----------------------------------------------------------------------------------------------------------
    def check_both(self) -> None:
        for cq in self.classes:
            if cq == self.base or cq not in self.p.classes:
                continue
            c = self.p.classes[cq]
            self.rep.count("kinds of adapted elements")
            a, b = "stub_lines" in c.methods, "pydef_lines" in c.methods
            if a != b:
                missing = "pydef_lines" if a else "stub_lines"
                g = self.method(cq, missing)
                # rendered through a hook of its own
                if g is None or g.cls is None or g.cls.full == self.base or self.raises(cq, missing):
                    self.rep.add("both", f"{c.name}.{missing}", f"{c.module.rel}:{c.node.lineno}", f"{c.name} renders itself on one side only: {missing} is that of {g.cls.name if g and g.cls else 'nobody'}")

    # --- (walk), (filter) ------------------------------------------------------------------------------------------------
    def origins(self, cls: str, f: Func, e: ast.AST, depth: int = 0, tests: tuple = ()) -> list[tuple[str, tuple]]:
        """Lists from which a rendered element comes, with the filters it went through: (text, ((filter, element name), ...))"""
        if depth > 10:
            return []
        if isinstance(e, ast.Name):
            out: list[tuple[str, tuple]] = []
            for k, v, g in self.defs(f, e.id):
                if k == "assign" and isinstance(v, (ast.List, ast.Call)) and not (v.elts if isinstance(v, ast.List) else v.args or ast.unparse(v.func) != "list"):
                    for n in self.p.own_nodes(g):
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend") and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id and len(n.args) == 1:
                            a = n.args[0]
                            more = self.conditions_of(g, n, a.id) if isinstance(a, ast.Name) and n.func.attr == "append" else ()
                            out += self.origins(cls, g, a, depth + 1, tests + more)
                elif k == "param":
                    i = g.params.index(e.id)
                    for h in self._closure:
                        for n in self.p.own_nodes(h):
                            if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and n.func.attr == g.name and g.cls is not None
                                                            or isinstance(n.func, ast.Name) and n.func.id == g.name and g.cls is None):
                                j = i - 1 if g.params[:1] == ["self"] else i
                                arg = n.args[j] if 0 <= j < len(n.args) else next((q.value for q in n.keywords if q.arg == e.id), None)
                                if arg is not None:
                                    more = self.conditions_of(h, n, arg.id) if isinstance(arg, ast.Name) else ()
                                    out += self.origins(cls, h, arg, depth + 1, tests + tuple(m for m in more if m[1] in {x.id for x in ast.walk(m[0]) if isinstance(x, ast.Name)} and not self.about_length(m[0], m[1])))
                elif k in ("loop", "assign"):
                    out += self.origins(cls, g, v, depth + 1, tests)
                elif k == "part":
                    out += self.origins(cls, g, v, depth + 1, tests)
            return out
        if isinstance(e, ast.Call):
            nm = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ""
            if nm == "filter" and len(e.args) == 2:
                return self.origins(cls, f, e.args[1], depth + 1, tests + ((e.args[0], None, f, True),))
            if nm in ("list", "sorted", "reversed", "enumerate", "tuple", "iter", "chain", "zip") and e.args:
                out = []
                for a in e.args:
                    out += self.origins(cls, f, a, depth + 1, tests)
                return out
            tg, _ = self.p.callees(f.module, e)
            for g in tg:
                if any(self.renders_param(g, i) for i in range(len(g.params))) and e.args:
                    out = []
                    for a in e.args:
                        out += self.origins(cls, f, a, depth + 1, tests)
                    return out
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "self" and not e.args:
                g2 = self.method(cls, e.func.attr)
                r = self.single_return(g2) if g2 is not None else None
                if r is not None and g2 is not None:
                    return self.origins(cls, g2, r, depth + 1, tests)
            return [(t, tests) for t in sorted(self.canon(cls, f, e))]
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and isinstance(e.elt, ast.Name):
            gen = e.generators[-1]
            for t in gen.ifs:
                tests = tests + ((t, e.elt.id, f, True),)
            return self.origins(cls, f, gen.iter, depth + 1, tests)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self.origins(cls, f, e.left, depth + 1, tests) + self.origins(cls, f, e.right, depth + 1, tests)
        if isinstance(e, ast.Attribute):
            return [(t, tests) for t in sorted(self.canon(cls, f, e))]
        if isinstance(e, ast.Subscript):
            return self.origins(cls, f, e.value, depth + 1, tests)
        return []

    def about_length(self, t: ast.AST, name: str) -> bool:
        """The test only asks whether the list is empty"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.about_length(t.operand, name)
        if isinstance(t, ast.Compare):
            return all(isinstance(x, ast.Constant) or self.about_length(x, name) for x in [t.left, *t.comparators])
        if isinstance(t, ast.Call):
            return isinstance(t.func, ast.Name) and t.func.id in ("len", "bool", "any") and len(t.args) == 1 and self.about_length(t.args[0], name)
        return isinstance(t, ast.Name) and t.id == name

    def held(self, o: str, cq: str) -> Optional[set[str]]:
        """Names of the classes of the elements stored in a list attribute; None: unknown"""
        m = re.fullmatch(r"self\.(\w+)", o)
        if m is None:
            return None
        attr, out = m.group(1), set()
        mro = self.p.mro(cq)
        for f in self.p.all_funcs():
            owner = f
            while owner.cls is None and owner.parent is not None:
                owner = owner.parent
            if owner.cls is None or owner.cls.full not in mro:
                continue
            for n in self.p.own_nodes(f):
                if not (isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.value, ast.Name) and n.value.id == "self"):
                    continue
                par = self.p.parent_of.get(n)
                if isinstance(par, ast.Attribute) and isinstance(self.p.parent_of.get(par), ast.Call):
                    call = self.p.parent_of[par]
                    assert isinstance(call, ast.Call)
                    if par.attr in ("append", "insert") and call.func is par:
                        ks = self.kinds_of(f, call.args[-1])
                        if ks is None:
                            return None
                        out |= ks
                    elif par.attr in ("extend", "__iadd__"):
                        return None
                elif isinstance(par, ast.AugAssign) and par.target is n:
                    return None
                elif isinstance(par, (ast.Assign, ast.AnnAssign)) and n in (par.targets if isinstance(par, ast.Assign) else [par.target]) and par.value is not None:
                    v = par.value
                    if not (isinstance(v, ast.List) and not v.elts) and f"self.{attr}" not in ast.unparse(v):
                        return None
        return out or None

    def kinds_of(self, f: Func, e: ast.AST, depth: int = 0) -> Optional[set[str]]:
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and any(c.rsplit(".", 1)[-1] == e.func.id for c in self.classes):
            return {e.func.id}
        if isinstance(e, ast.Name) and depth < 3:
            out: set[str] = set()
            for k, v, g in self.defs(f, e.id):
                ks = self.kinds_of(g, v, depth + 1) if k == "assign" else None
                if ks is None:
                    return None
                out |= ks
            return out or None
        return None

    def renders_param(self, g: Func, i: int) -> bool:
        """The function renders the elements of its argument"""
        for n in self.p.own_nodes(g):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in STUB | PYDEF and isinstance(n.func.value, ast.Name):
                return True
        return False

    def rendered(self, cls: str, root: str, names: set[str]) -> list[tuple[Func, ast.Call, str, tuple]]:
        out = []
        self._closure = self.closure(cls, root)
        for f in self._closure:
            for n in self.p.own_nodes(f):
                if not isinstance(n, ast.Call):
                    continue
                if isinstance(n.func, ast.Attribute) and n.func.attr in names:
                    v = n.func.value
                    if isinstance(v, ast.Name) and v.id == "self" or isinstance(v, ast.Call) and ast.unparse(v.func) == "super":
                        continue
                    tg, _ = self.p.callees(f.module, n)
                    if tg and not any(g.cls is not None and g.cls.full in self.classes for g in tg):
                        continue
                    el = v.id if isinstance(v, ast.Name) else None
                    tests = self.conditions_of(f, n, el) if el else ()
                    for o, fs in self.origins(cls, f, v):
                        out.append((f, n, o, self.split(fs + tests)))
                else:
                    tg, _ = self.p.callees(f.module, n)
                    for g in tg:
                        if g.cls is None and n.args and self.calls_names(g, names):
                            for o, fs in self.origins(cls, f, n.args[0]):
                                out.append((f, n, o, self.split(fs)))
        return out

    def split(self, tests: tuple) -> tuple:
        """A conjunction is several conditions"""
        out: list[tuple] = []
        for t, el, f, pol in tests:
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                out += self.split(((t.operand, el, f, not pol),))
            elif isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == pol:
                out += self.split(tuple((v, el, f, pol) for v in t.values))
            else:
                out.append((t, el, f, pol))
        return tuple(out)

    def calls_names(self, g: Func, names: set[str]) -> bool:
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names and isinstance(n.func.value, ast.Name) and n.func.value.id not in ("self",) for n in self.p.own_nodes(g)) \
            and any(d[0] == "loop" for n in self.p.own_nodes(g) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names and isinstance(n.func.value, ast.Name) for d in self.defs(g, n.func.value.id))

    def conditions_of(self, f: Func, n: ast.AST, el: str) -> tuple:
        """Conditions on the element named el (or on the names it is a copy of) at a point"""
        names = [el]
        for x in names:
            for k, v, g in self.defs(f, x):
                if k == "assign" and isinstance(v, ast.Name) and v.id not in names:
                    names.append(v.id)
        out = []
        for t, pol in self.element_conditions(f, n, el):
            used = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
            out.append((t, next((x for x in names if x in used), el), f, pol))
        return tuple(out)

    def element_conditions(self, f: Func, n: ast.AST, el: Optional[str]) -> Iterator[tuple[ast.AST, bool]]:
        """Conditions on the element under which it is rendered: enclosing tests, and the 'continue's before it in the loop"""
        cur: ast.AST = n
        while True:
            par = self.p.parent_of.get(cur)
            if par is None or par is f.node:
                return
            if isinstance(par, ast.If) and cur is not par.test:
                yield par.test, cur not in par.orelse
            body = next((b for b in (getattr(par, "body", None), getattr(par, "orelse", None)) if isinstance(b, list) and cur in b), None)
            if body is not None:
                for st in body[: body.index(cur)]:  # type: ignore
                    if isinstance(st, ast.If) and st.body and isinstance(st.body[-1], (ast.Continue, ast.Break)):
                        yield st.test, False
            if isinstance(par, (ast.For, ast.While)):
                return
            cur = par

    def eval_test(self, t: ast.AST, el: Optional[str], cls: str, f: Func, depth: int = 0) -> Optional[bool]:
        """Truth of a test about an element of the given class; None: not decided by its class"""
        if depth > 5:
            return None
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.eval_test(t.operand, el, cls, f, depth)
            return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            rs = [self.eval_test(v, el, cls, f, depth) for v in t.values]
            if isinstance(t.op, ast.And):
                return False if False in rs else True if all(rs) and None not in rs else None
            return True if True in rs else False if all(r is False for r in rs) else None
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and isinstance(t.args[0], ast.Name) and (el is None or t.args[0].id == el):
            types = t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]]
            names = {x.id for x in types if isinstance(x, ast.Name)} | {x.attr for x in types if isinstance(x, ast.Attribute)}
            mro = {c.rsplit(".", 1)[-1] for c in self.p.mro(cls)}
            return bool(names & mro)
        if isinstance(t, ast.Lambda):
            return self.eval_test(t.body, t.args.args[0].arg if t.args.args else None, cls, f, depth + 1)
        g: Optional[Func] = None
        if isinstance(t, ast.Name) and el is None:
            g = self.local_function(f, t.id)
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and len(t.args) == 1:
            g = self.local_function(f, t.func.id)
        elif isinstance(t, ast.Call) and len(t.args) == 1:
            tg, _ = self.p.callees(f.module, t)
            g = tg[0] if len(tg) == 1 else None
        if g is not None:
            r = self.single_return(g)
            if r is not None and g.params:
                return self.eval_test(r, g.params[-1], cls, g, depth + 1)
        return None

    def local_function(self, f: Func, name: str) -> Optional[Func]:
        g: Optional[Func] = f
        while g is not None:
            for h in self.p.all_funcs():
                if h.parent is g and h.name == name:
                    return h
            g = g.parent
        for h in self.p.all_funcs():
            if h.parent is None and h.cls is None and h.module is f.module and h.name == name:
                return h
        return None

    def empty_rendering(self, cls: str, root: str) -> bool:
        g = self.method(cls, root)
        if g is None:
            return True
        rets = [n for n in self.p.own_nodes(g) if isinstance(n, ast.Return)]
        return bool(rets) and all(isinstance(n.value, ast.List) and not n.value.elts for n in rets)

    def concrete(self) -> list[str]:
        return [c for c in self.classes if c != self.base and self.method(c, "stub_lines") is not None and not self.empty_rendering(c, "pydef_lines")
                and not self.raises(c, "pydef_lines") and not self.raises(c, "stub_lines")]

    def raises(self, c: str, root: str) -> bool:
        g = self.method(c, root)
        return g is None or bool(g.body) and any(isinstance(s, ast.Raise) for s in g.body[-1:])

    def check_walk(self) -> None:
        kinds = self.concrete()
        for cq in self.classes:
            if cq == self.base or cq not in self.p.classes or not ({"stub_lines", "pydef_lines"} & set(self.p.classes[cq].methods)):
                continue
            name = self.p.classes[cq].name
            A, B = self.rendered(cq, "stub_lines", STUB), self.rendered(cq, "pydef_lines", PYDEF)
            if not A and not B:
                continue
            self.rep.count("containers")
            oa, ob = {x[2] for x in A}, {x[2] for x in B}
            self.rep.sample(f"{name}: stub renders {sorted(oa)}; binding renders {sorted(ob)}")
            self.rep.count("lists of children rendered", len(oa | ob))
            for o in sorted(oa ^ ob):
                side, other = ("stub", "binding code") if o in oa else ("binding code", "stub")
                site = next(x for x in A + B if x[2] == o)
                if not (B if o in oa else A):
                    # the other side renders nothing at all that the analysis could follow: only report when it exists
                    pass
                self.rep.add("walk", f"{name}: {o[:100]}", site[0].loc(site[1]), f"the elements of this list are rendered in the {side} but not in the {other}")
            for o in sorted(oa & ob):
                held = self.held(o, cq)
                for k in kinds:
                    if held is not None and k.rsplit(".", 1)[-1] not in held:
                        continue
                    got = []
                    for X, names in ((A, "stub"), (B, "pydef")):
                        rs = [self.passes(x[3], k) for x in X if x[2] == o]
                        got.append(True if True in rs else None if None in rs else False)
                    self.rep.count("class filters evaluated")
                    if True in got and False in got:
                        side = "binding code" if got[0] else "stub"
                        if got[0] is False and self.empty_rendering(k, "stub_lines") or got[1] is False and self.empty_rendering(k, "pydef_lines"):
                            continue
                        site = next(x for x in (B if got[0] else A) if x[2] == o)
                        self.rep.add("filter", f"{name}: {k.rsplit('.', 1)[-1]} of {o[:80]}", site[0].loc(site[1]), f"elements of kind {k.rsplit('.', 1)[-1]} are left out of the {side} only")
                # conditions which are not about the class: those which all the renderings of a kind of element have
                said: set[str] = set()
                for k in kinds:
                    if held is not None and k.rsplit(".", 1)[-1] not in held:
                        continue
                    per = []
                    for X in (A, B):
                        sites = [self.free_tests([x]) for x in X if x[2] == o and self.passes(x[3], k) is not False]
                        per.append({t: sites[0][t] for t in sites[0] if all(t in y for y in sites)} if sites else None)
                    ta, tb = per
                    if ta is None or tb is None:
                        continue
                    for t in sorted(set(ta) ^ set(tb)):
                        if t in said:
                            continue
                        said.add(t)
                        site2 = ta.get(t) or tb.get(t)
                        assert site2 is not None
                        side = "stub" if t in ta else "binding code"
                        self.rep.add("filter", f"{name}: {o[:60]} if {t[:80]}", site2[0].loc(site2[1]), f"an element of this list is rendered in the {side} under a condition which the other side does not have")

    def passes(self, tests: tuple, cls: str) -> Optional[bool]:
        r: Optional[bool] = True
        for t, el, f, pol in tests:
            v = self.eval_test(t, el, cls, f)
            if v is None:
                r = None
            elif v != pol:
                return False
        return r

    def free_tests(self, X: list) -> dict[str, tuple]:
        out: dict[str, tuple] = {}
        for f, n, o, tests in X:
            for t, el, g, pol in tests:
                if any(self.eval_test(t, el, k, g) is not None for k in self.classes):
                    continue
                if el is not None and el not in {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}:
                    continue
                txt = ast.unparse(t)
                if el is not None:
                    txt = re.sub(rf"\b{re.escape(el)}\b", "E", txt)
                out[("" if pol else "not ") + txt] = (f, n)
        return out

    # --- (name), (param) ---------------------------------------------------------------------------------------------------
    def templates(self, f: Func) -> Iterator[tuple[str, dict[str, list[ast.AST]], ast.AST]]:
        """(text with marks, mark -> expressions, node)"""
        for n in self.p.own_nodes(f):
            if isinstance(n, ast.JoinedStr):
                txt, m = "", {}
                for i, v in enumerate(n.values):
                    if isinstance(v, ast.FormattedValue):
                        txt += f"\u27e6{i}\u27e7"
                        m[str(i)] = [v.value]
                    else:
                        txt += str(v.value)  # type: ignore
                yield txt, m, n
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and "{" in n.value and not isinstance(self.p.parent_of.get(n), ast.JoinedStr):
                keys: list[str] = []
                def mark(mm: re.Match) -> str:
                    keys.append(mm.group(1))
                    return f"\u27e6{len(keys) - 1}\u27e7"
                txt = re.sub(r"\{(\w+)\}", mark, n.value)
                m = {str(i): self.replacement(f, k) for i, k in enumerate(keys)}
                yield txt, m, n

    def replacement(self, f: Func, key: str) -> list[ast.AST]:
        """Expressions given to a placeholder: X.key = e, X["key"] = e, {"key": e}, f(key=e)"""
        out: list[ast.AST] = []
        g: Optional[Func] = f
        while g is not None:
            for n in self.p.own_nodes(g):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr == key and isinstance(t.value, ast.Name) and t.value.id != "self":
                            out.append(n.value)
                        elif isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and t.slice.value == key:
                            out.append(n.value)
                elif isinstance(n, ast.Dict):
                    out += [v for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant) and k.value == key]
                elif isinstance(n, ast.Call):
                    out += [k.value for k in n.keywords if k.arg == key]
            if out:
                break
            g = g.parent
        return out

    STUB_NAME = [re.compile("(?:^|\n)[ \t]*class \u27e6(\\d+)\u27e7"), re.compile("(?:^|\n)[ \t]*def \u27e6(\\d+)\u27e7\\(")]
    STUB_DECL = re.compile("^\u27e6(\\d+)\u27e7(?:: \u27e6| = (?:enum|\u27e6))")
    PYDEF_NAME = re.compile("(?:\\.(?:def\\w*|value|attr|\u27e6\\d+\u27e7)\\(|_<[^\\n]*\\([^\"\\n]*?, |\n[^\"\n]*\\(\u27e6\\d+\u27e7, )\\s*\"\u27e6(\\d+)\u27e7\"")
    PYDEF_ARG = re.compile("arg\\(\"\u27e6(\\d+)\u27e7\"")

    def names(self, cls: str, root: str) -> list[tuple[str, set[str], Func, ast.AST]]:
        out = []
        mro = {c.rsplit(".", 1)[-1] for c in self.p.mro(cls)}
        for f in self.closure(cls, root):
            for txt, m, n in self.templates(f):
                if root == "stub_lines":
                    found = [("name", x.group(1)) for r in self.STUB_NAME for x in r.finditer(txt)]
                    # (a line "X = Y" of a class or of a function is an alias, not its name)
                    d = self.STUB_DECL.search(txt) if not any(b in mro for b in ("AdaptedClass", "AdaptedBlock", "AdaptedNamespace")) else None
                    if d:
                        found.append(("param" if "AdaptedFunction" in (f.cls.name if f.cls else "") else "name", d.group(1)))
                else:
                    found = [("name", x.group(1)) for x in self.PYDEF_NAME.finditer(txt) if not txt[: x.end()].rstrip().endswith("arg(") and "arg(\"" not in txt[x.start(): x.end()]]
                    found += [("param", x.group(1)) for x in self.PYDEF_ARG.finditer(txt)]
                for kind, k in found:
                    es = m.get(k, [])
                    texts: set[str] = set()
                    for e in es:
                        texts |= self.canon(cls, f, e)
                    if texts:
                        out.append((kind, texts, f, n))
        return out

    def check_names(self) -> None:
        for cq in self.classes:
            if cq == self.base or cq not in self.p.classes:
                continue
            c = self.p.classes[cq]
            if not ({"stub_lines", "pydef_lines"} & set(c.methods)) or self.raises(cq, "stub_lines") or self.raises(cq, "pydef_lines"):
                continue
            A = [x for x in self.names(cq, "stub_lines") if x[0] == "name"]
            B = [x for x in self.names(cq, "pydef_lines") if x[0] == "name"]
            ta = {t for x in A for t in x[1]}
            tb = {t for x in B for t in x[1]}
            if not ta or not tb:
                continue
            self.rep.count("kinds of elements whose names are compared")
            self.rep.count("name positions in the output templates", len(A) + len(B))
            self.rep.sample(f"{c.name}: named {sorted(ta)} in the stub, {sorted(tb)} in the binding code")
            for t in sorted(ta - tb):
                x = next(x for x in A if t in x[1])
                self.rep.add("name", f"{c.name}: {t[:120]}", x[2].loc(x[3]), f"the stub names the element `{t[:120]}`, the binding code names it {sorted(tb)}")
            for t in sorted(tb - ta):
                x = next(x for x in B if t in x[1])
                self.rep.add("name", f"{c.name}: {t[:120]}", x[2].loc(x[3]), f"the binding code names the element `{t[:120]}`, the stub names it {sorted(ta)}")
        # parameters
        fn = next((c for c in self.classes if c.endswith(".AdaptedFunction")), None)
        if fn is None:
            self.rep.errors.append("class AdaptedFunction not found")
            return
        a = {self.naming(t) for x in self.names(fn, "stub_lines") if x[0] == "param" for t in x[1]}
        b: set[str] = set()
        for cq in self.classes:
            for f in (self.p.classes[cq].methods.values() if cq in self.p.classes else []):
                for txt, m, n in self.templates(f):
                    for x in self.PYDEF_ARG.finditer(txt):
                        for e in m.get(x.group(1), []):
                            b |= {self.naming(t) for t in self.canon(cq, f, e)}
        if a and b:
            self.rep.count("naming functions of parameters", len(a | b))
            if a != b:
                f = self.method(fn, "stub_lines")
                assert f is not None
                self.rep.add("param", f"parameters named by {sorted(a)} / {sorted(b)}", f.loc(f.node), f"the parameters are named by {sorted(a)} in the stub and by {sorted(b)} in the binding code: keyword arguments differ")

    def naming(self, t: str) -> str:
        m = re.match(r"([\w.]+)\(", t)
        return m.group(1).rsplit(".", 1)[-1] if m else t

    # --- (bases) -----------------------------------------------------------------------------------------------------------
    def check_bases(self) -> None:
        acc = self.p.cls("CppAccessType")
        members = [t.id for st in acc.node.body if isinstance(st, ast.Assign) for t in st.targets if isinstance(t, ast.Name)]
        for cq in self.classes:
            if cq not in self.p.classes or not {"stub_lines", "pydef_lines"} <= set(self.p.classes[cq].methods):
                continue
            pub: dict[str, dict[str, Optional[bool]]] = {}
            where = {}
            for root in ("stub_lines", "pydef_lines"):
                for f in self.closure(cq, root):
                    for n in self.p.own_nodes(f):
                        if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name) \
                                and "base_classes()" in " ".join(self.canon(cq, f, n.iter)):
                            var = n.target.elts[0].id
                            where[root] = (f, n)
                            pub.setdefault(root, {})
                            for mname in members:
                                r = self.loop_publishes(f, n, var, mname)
                                old = pub[root].get(mname)
                                pub[root][mname] = r if old is None else (old or r)
            if len(pub) == 2:
                self.rep.count("published base classes: access types compared", len(members))
                for mname in members:
                    a, b = pub["stub_lines"].get(mname), pub["pydef_lines"].get(mname)
                    if a is not None and b is not None and a != b:
                        f, n = where["stub_lines" if a is False else "pydef_lines"]
                        if isinstance(n, ast.comprehension):
                            n = f.node
                        self.rep.add("bases", f"{self.p.classes[cq].name}: {mname} base classes", f.loc(n), f"{mname} base classes are published in the {'binding code' if b else 'stub'} only")

    def loop_publishes(self, f: Func, n: ast.AST, var: str, member: str) -> Optional[bool]:
        """Does the loop add something for a base class of that access type"""
        if isinstance(n, ast.comprehension):
            r: Optional[bool] = True
            for t in n.ifs:
                v = self.access_test(f, t, var, member)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        assert isinstance(n, ast.For)
        return self.block_publishes(f, n.body, var, member)[0]

    def block_publishes(self, f: Func, body: list, var: str, member: str) -> tuple[Optional[bool], bool]:
        """(something is added, the rest of the body is reached)"""
        got: Optional[bool] = False
        for st in body:
            if isinstance(st, (ast.Continue, ast.Break, ast.Return, ast.Raise)):
                return got, False
            if isinstance(st, ast.If):
                v = self.access_test(f, st.test, var, member)
                branches = [st.body] if v is True else [st.orelse] if v is False else [st.body, st.orelse]
                rs = [self.block_publishes(f, b, var, member) for b in branches]
                adds = {r[0] for r in rs}
                if len(adds) > 1 or None in adds:
                    got = got or None
                elif True in adds:
                    got = True
                if not any(r[1] for r in rs):
                    return got, False
                if not all(r[1] for r in rs) and got is not True:
                    got = None if got is None else got
                continue
            for x in ast.walk(st):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "add", "extend", "insert") or isinstance(x, ast.AugAssign) or isinstance(x, (ast.Yield,)):
                    got = True
        return got, True

    def access_test(self, f: Func, t: ast.AST, var: str, member: str) -> Optional[bool]:
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.access_test(f, t.operand, var, member)
            return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            rs = [self.access_test(f, v, var, member) for v in t.values]
            if isinstance(t.op, ast.And):
                return False if False in rs else True if all(r is True for r in rs) else None
            return True if True in rs else False if all(r is False for r in rs) else None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and t.left.id == var:
            c = t.comparators[0]
            if isinstance(t.ops[0], (ast.In, ast.NotIn)):
                if isinstance(c, ast.Name):
                    ds = self.defs(f, c.id)
                    c = ds[0][1] if len(ds) == 1 and ds[0][0] == "assign" else self.module_value(f, c.id) or c
                if isinstance(c, (ast.Tuple, ast.List, ast.Set)):
                    hit = any(isinstance(x, ast.Attribute) and x.attr == member for x in c.elts)
                    return hit == isinstance(t.ops[0], ast.In)
            elif isinstance(c, ast.Attribute):
                same = isinstance(t.ops[0], (ast.Eq, ast.Is))
                return (c.attr == member) == same
        if isinstance(t, ast.Call) and len(t.args) == 1 and isinstance(t.args[0], ast.Name) and t.args[0].id == var:
            tg, _ = self.p.callees(f.module, t)
            g = tg[0] if len(tg) == 1 else self.local_function(f, t.func.id) if isinstance(t.func, ast.Name) else None
            r2 = self.single_return(g) if g is not None else None
            if r2 is not None and g is not None:
                return self.access_test(g, r2, g.params[-1], member)
        return None

    def module_value(self, f: Func, name: str) -> Optional[ast.AST]:
        for st in f.module.tree.body:
            ts = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []
            if getattr(st, "value", None) is not None and any(isinstance(t, ast.Name) and t.id == name for t in ts):
                return st.value  # type: ignore
        return None

    # --- (helper) ------------------------------------------------------------------------------------------------------------
    def check_helpers(self) -> None:
        """X.stub_code() in the stub rendering and X.pydef_code() in the other: same tests about the element"""
        for cq in self.classes:
            if cq not in self.p.classes or not {"stub_lines", "pydef_lines"} <= set(self.p.classes[cq].methods):
                continue
            conds: dict[str, dict[str, set]] = {}
            site = {}
            for root, meth in (("stub_lines", "stub_code"), ("pydef_lines", "pydef_code")):
                for f in self.closure(cq, root):
                    for n in self.p.own_nodes(f):
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == meth:
                            for o in self.canon(cq, f, n.func.value):
                                conds.setdefault(o, {}).setdefault(root, set()).update(self.atoms(cq, f, n))
                                site[(o, root)] = (f, n)
            for o, by in sorted(conds.items()):
                if len(by) != 2:
                    root = next(iter(by))
                    f, n = site[(o, root)]
                    self.rep.add("helper", f"{self.p.classes[cq].name}: {o[:80]}", f.loc(n), f"used in {root} only")
                    continue
                self.rep.count("helpers used by both renderings")
                a, b = by["stub_lines"], by["pydef_lines"]
                for t in sorted(a ^ b):
                    f, n = site[(o, "stub_lines" if t in a else "pydef_lines")]
                    self.rep.add("helper", f"{self.p.classes[cq].name}: {o[:60]} if {t[:60]}", f.loc(n), f"what {o[:60]} adds is rendered in the {'stub' if t in a else 'binding code'} only if `{t}`; the other side does not ask")

    def atoms(self, cls: str, f: Func, n: ast.AST) -> set[str]:
        out: set[str] = set()
        cur: ast.AST = n

        def split(t: ast.AST, truth: bool) -> None:
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                split(t.operand, not truth)
            elif isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == truth:
                for v in t.values:
                    split(v, truth)
            else:
                for c in self.canon(cls, f, t):
                    out.add(("" if truth else "not ") + c)
        while True:
            par = self.p.parent_of.get(cur)
            if par is None or cur is f.node:
                break
            if isinstance(par, (ast.If, ast.IfExp)) and cur is not par.test:
                split(par.test, cur is par.body if isinstance(par, ast.IfExp) else cur in par.body)
            body = next((b for b in (getattr(par, "body", None), getattr(par, "orelse", None)) if isinstance(b, list) and cur in b), None)
            if body is not None and par is f.node and f.parent is not None or body is not None and par is not f.node:
                for st in body[: body.index(cur)]:
                    if isinstance(st, ast.If) and not st.orelse and st.body and isinstance(st.body[-1], (ast.Return, ast.Continue)):
                        split(st.test, False)
            cur = par
        return out


def run(p: Project, tier: str) -> Report:
    rep = Report("C07", "both renderings of each adapted class exist, render the elements of the same lists under the same conditions, and write the same name expression at the name positions of their templates; "
                        "parameters named by one function; base classes of the same access types")
    r = Rule(p, rep)
    if len(r.classes) < 8:
        raise AnalysisError(f"only {len(r.classes)} adapted classes found")
    r.check_both()
    r.check_walk()
    r.check_names()
    r.check_bases()
    r.check_helpers()
    rep.need("kinds of adapted elements", 10)
    rep.need("containers", 3)
    rep.need("lists of children rendered", 3)
    rep.need("kinds of elements whose names are compared", 4)
    rep.assumptions = ["accessors return the same value when asked twice (C09)", "naming functions are deterministic (C02)"]
    return rep
