"""C11: no C++ construct is lost without a word while parsing.

(loop)     in every loop over the children of a parsed element, each path through an iteration stores something made from the child in an object
           which outlives the iteration, reports it (warning, exception), hands it to a helper which does, or is pinned by an explicit test of
           its tag on a kind which is skipped on purpose (comments kept elsewhere, attributes, or a kind stored by another loop over the same element);
           no path leaves the loop before the remaining children were seen
(isolate)  the loops which parse or adapt one construct after the other do it inside a try whose handler keeps or reports the construct and goes
           on; whatever may be raised while handling a construct is of the caught kind
(assert)   the result of parsing generated code again is never the subject of an assert: it aborts the whole file"""
from __future__ import annotations

import ast
from typing import Iterator, Optional

from vlib.report import Report
from vlib.project import Func, Module, Project, dotted

TECHNIQUE = "path-sensitive consumption analysis (tag facts, taint from the child, interprocedural consumption summaries) of the loops over parsed children; escape analysis of exception types against the isolating handlers"
LEVEL_NOTE = ("Stored means: something derived from the child reaches an object which outlives the iteration; that all of it does is not decided. Leaf elements of srcML "
              "(comment, specifier, modifier, literal, macro name and value) are taken to carry their text or to be empty. Implicit exceptions (attribute, index, key errors) and other asserts are not covered.")

SKIP = {"comment", "attribute", "directive"}
LEAF = {"comment", "value", "specifier", "modifier", "literal", "directive"}
LEAF_IN = {("macro", "name")}
CLOSED = {"define": {"directive", "macro", "value"}, "macro": {"name", "parameter_list"}}  # the only kinds of children of these elements
MUTATORS = {"append", "extend", "insert", "add", "update", "setdefault", "appendleft", "push"}
REPORTS = {"emit_warning", "emit_warning_if_not_quiet"}
WRAP = {"enumerate", "list", "tuple", "reversed", "sorted", "iter"}


class St:
    __slots__ = ("alias", "taint", "local", "tags", "tagof", "consts", "lists", "done", "walked")

    def __init__(self) -> None:
        self.alias: dict[str, str] = {}          # name or expression -> canonical expression
        self.taint: frozenset[str] = frozenset()  # names holding something made from the child
        self.local: frozenset[str] = frozenset()  # names bound to something created during the iteration
        self.tags: dict[str, tuple[Optional[frozenset[str]], frozenset[str]]] = {}
        self.tagof: dict[str, str] = {}
        self.consts: dict[str, object] = {}
        self.lists: dict[str, str] = {}          # names holding the children of an element
        self.done = False
        self.walked = False                      # its own children were enumerated

    def copy(self) -> "St":
        s = St()
        s.alias, s.taint, s.local, s.tags, s.tagof, s.consts, s.lists, s.done, s.walked = dict(self.alias), self.taint, self.local, dict(self.tags), dict(self.tagof), dict(self.consts), dict(self.lists), self.done, self.walked
        return s

    def key(self) -> tuple:
        return (tuple(sorted(self.alias.items())), self.taint, self.local, tuple(sorted((a, tuple(sorted(b[0])) if b[0] is not None else None, tuple(sorted(b[1]))) for a, b in self.tags.items())),
                tuple(sorted(self.tagof.items())), tuple(sorted((a, repr(b)) for a, b in self.consts.items())), tuple(sorted(self.lists.items())), self.done, self.walked)


def dedupe(xs: list) -> list:
    seen, out = set(), []
    for x in xs:
        s = x[1] if isinstance(x, tuple) else x
        kk = ((x[0], id(x[2]) if len(x) > 2 else None) if isinstance(x, tuple) else None, s.key())
        if kk not in seen:
            seen.add(kk)
            out.append(x)
    return out


class LoopInfo:
    def __init__(self, f: Func, node: ast.AST, base: str, isolating: bool):
        self.f, self.node, self.base, self.isolating = f, node, base, isolating
        self.kept: set[str] = set()
        self.lost: list[tuple[Optional[frozenset[str]], frozenset[str], ast.AST]] = []
        self.left: list[ast.AST] = []
        self.paths = 0
        self.keeps = False
        self.named = False
        self.ctx: set[str] = set()


class Walker:
    def __init__(self, p: Project):
        self.p = p
        self.loops: dict[int, LoopInfo] = {}
        self.same: list[tuple[int, str, str]] = []
        self.context: dict[tuple[str, str], set[str]] = {}
        self.summaries: dict[tuple, tuple] = {}
        self.active: set[tuple] = set()
        self.depth = 0
        self.func_loops: dict[str, list[tuple[str, int]]] = {}   # function -> (base, loop id)
        self.passes: set[tuple[str, str, str, str]] = set()      # caller, base, callee, param: the same element is handed over
        self.noreturn_c: dict[str, bool] = {}

    # ---------------------------------------------------------------- facts about functions
    def noreturn(self, g: Func) -> bool:
        if g.qual not in self.noreturn_c:
            self.noreturn_c[g.qual] = False
            b = [s for s in g.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))] if not isinstance(g.node, ast.Lambda) else []
            self.noreturn_c[g.qual] = bool(b) and isinstance(b[-1], ast.Raise) and not any(isinstance(x, (ast.Return, ast.Yield)) for x in self.p.own_nodes(g))
        return self.noreturn_c[g.qual]

    # ---------------------------------------------------------------- expressions
    def canon(self, e: ast.AST, st: St) -> str:
        if isinstance(e, ast.Name):
            return st.alias.get(e.id, e.id)
        if isinstance(e, ast.Attribute):
            s = f"{self.canon(e.value, st)}.{e.attr}"
            return st.alias.get(s, s)
        if isinstance(e, ast.Subscript):
            i = self.canon(e.slice, st) if isinstance(e.slice, (ast.Name, ast.Subscript, ast.Attribute)) else ast.unparse(e.slice)
            s = f"{self.canon(e.value, st)}[{i}]"
            return st.alias.get(s, s)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "cast" and len(e.args) == 2:
            return self.canon(e.args[1], st)
        return ast.unparse(e)

    def tag_of(self, e: ast.AST, st: St) -> Optional[str]:
        if isinstance(e, ast.Name):
            return st.tagof.get(e.id)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "tag" and not e.args:
            return self.canon(e.func.value, st)
        return None

    def tainted(self, e: Optional[ast.AST], st: St) -> bool:
        if e is None:
            return False
        if self.tag_of(e, st) is not None:
            return False
        if isinstance(e, ast.Name):
            return e.id in st.taint or st.alias.get(e.id, "").startswith("@")
        if isinstance(e, (ast.Subscript, ast.Attribute)) and self.canon(e, st).startswith("@"):
            return True
        if isinstance(e, ast.Lambda):
            return self.tainted(e.body, st)
        return any(self.tainted(c, st) for c in ast.iter_child_nodes(e) if not isinstance(c, (ast.expr_context, ast.operator)))

    def root(self, e: ast.AST) -> Optional[str]:
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            e = e.func if isinstance(e, ast.Call) else e.value
        return e.id if isinstance(e, ast.Name) else None

    def outer(self, e: ast.AST, st: St) -> bool:
        """the object outlives the iteration"""
        r = self.root(e)
        if r is None:
            return False
        r = self.root(ast.parse(st.alias[r], mode="eval").body) if r in st.alias and not st.alias[r].startswith("@") else r
        return r is not None and r not in st.local and not st.alias.get(r, "").startswith("@")

    def source(self, e: ast.AST, st: St, f: Func) -> Optional[str]:
        """the element whose children this expression enumerates"""
        if isinstance(e, ast.Name):
            return st.lists.get(e.id)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in WRAP and e.args:
                return self.source(e.args[0], st, f)
            if isinstance(e.func, ast.Attribute) and e.func.attr == "make_wrapped_children":
                return self.canon(e.func.value, st)
            ts, _ = self.p.callees(f.module, e)
            if ts and e.args and all(t.cls is None and t.module.name.startswith("srcmlcpp") and self.returns_elements(t) for t in ts):
                return self.canon(e.args[0], st)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and isinstance(e.elt, ast.Name) and isinstance(e.generators[0].target, ast.Name) and e.elt.id == e.generators[0].target.id:
            return self.source(e.generators[0].iter, st, f)
        return None

    def returns_elements(self, t: Func) -> bool:
        r = getattr(t.node, "returns", None)
        return r is not None and ("SrcmlWrapper]" in ast.unparse(r) or "CppElementAndComment]" in ast.unparse(r))

    # ---------------------------------------------------------------- effects of the calls of an expression
    def effects(self, e: Optional[ast.AST], st: St, f: Func) -> list[St]:
        if e is None:
            return [st]
        out = [st]
        for c in self.calls(e):
            nxt: list[St] = []
            for s in out:
                nxt += self.call(c, s, f)
            out = dedupe(nxt)
        return out

    def calls(self, e: ast.AST) -> Iterator[ast.Call]:
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return
        for c in ast.iter_child_nodes(e):
            yield from self.calls(c)
        if isinstance(e, ast.Call):
            yield e

    def call(self, c: ast.Call, st: St, f: Func) -> list[St]:
        fn = c.func
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        if name in REPORTS:
            s = st.copy()
            s.done = True
            return [s]
        ts, ext = self.p.callees(f.module, c)
        if ts and all(self.noreturn(t) for t in ts):
            return []
        args = list(c.args) + [k.value for k in c.keywords]
        hot = any(self.tainted(a, st) for a in args)
        if isinstance(fn, ast.Attribute) and name in MUTATORS and hot:
            s = st.copy()
            if self.outer(fn.value, st) and not self.tainted(fn.value, st):
                s.done = True
            else:
                r = self.root(fn.value)
                if r:
                    s.taint = s.taint | {r}
            return [s]
        if isinstance(fn, ast.Name) and len(ts) == 1 and ts[0].parent is not None and not isinstance(ts[0].node, ast.Lambda) and self.depth < 5:
            for q, a in self.bind(ts[0], c).items():
                pos = st.tags.get(self.canon(a, st), (None, frozenset()))[0]
                if pos is not None:
                    self.context.setdefault((ts[0].qual, q), set()).update(pos)
            return self.inline(ts[0], c, st, f)
        if hot and len(ts) == 1 and not isinstance(ts[0].node, ast.Lambda) and ts[0].name != "__init__" and self.depth < 8:
            t = ts[0]
            if t.cls is not None and isinstance(fn, ast.Attribute) and (self.tainted(fn.value, st) or not self.outer(fn.value, st)):
                return [st]
            if t.module.name.startswith("srcmlcpp"):
                return self.apply(t, c, st, f)
        return [st]

    def bind(self, t: Func, c: ast.Call) -> dict[str, ast.AST]:
        ps = list(t.params)
        if t.cls is not None and ps and not t.is_static and isinstance(c.func, ast.Attribute):
            ps = ps[1:]
        b: dict[str, ast.AST] = {}
        for q, a in zip(ps, c.args):
            b[q] = a
        for kw in c.keywords:
            if kw.arg:
                b[kw.arg] = kw.value
        return b

    def inline(self, t: Func, c: ast.Call, st: St, f: Func) -> list[St]:
        """a nested function is a piece of its function's body"""
        b = self.bind(t, c)
        a = t.node.args
        for q, d in zip(list(t.params)[len(t.params) - len(a.defaults):], a.defaults):
            b.setdefault(q, d)
        s = st.copy()
        saved = (st.alias, st.taint, st.local, st.consts, st.tagof)
        for q, v in b.items():
            self.assign_name(q, v, st, s, t)
        self.depth += 1
        out = []
        for kind, s2, _n, _v in self.block(t.body, s, t):
            if kind == "raise":
                continue
            s3 = s2.copy()
            assigned = {n for x in self.p.own_nodes(t) if isinstance(x, ast.Nonlocal) for n in x.names}
            s3.alias = {**saved[0]}
            s3.taint = saved[1] | (s2.taint & assigned)
            s3.local, s3.consts, s3.tagof = saved[2], dict(saved[3]), dict(saved[4])
            out.append(s3)
        self.depth -= 1
        return dedupe(out)

    def apply(self, t: Func, c: ast.Call, st: St, f: Func) -> list[St]:
        out: list[St] = [st]
        for q, a in self.bind(t, c).items():
            if not self.tainted(a, st):
                continue
            ca = self.canon(a, st)
            pos = st.tags.get(ca, (None, frozenset()))[0]
            if pos is not None:
                self.context.setdefault((t.qual, q), set()).update(pos)
            summ = self.summary(t, q, pos)
            nxt = []
            for s in out:
                for kind, spos in summ:
                    s2 = s.copy()
                    if kind == "kept":
                        s2.done = True
                    elif spos is not None and kind == "lost":
                        old = s2.tags.get(ca, (None, frozenset()))
                        s2.tags[ca] = (spos if old[0] is None else old[0] & spos, old[1])
                    nxt.append(s2)
            out = dedupe(nxt)
        return out

    def summary(self, t: Func, q: str, pos: Optional[frozenset[str]]) -> tuple:
        """what becomes of the element given as the parameter: (kept | made | lost, tags) for each way out"""
        kk = (t.qual, q, tuple(sorted(pos)) if pos is not None else None)
        if kk in self.summaries:
            return self.summaries[kk]
        if kk in self.active:
            return (("kept", None),)
        self.active.add(kk)
        depth, self.depth = self.depth, 0
        s = St()
        s.taint = frozenset({q})
        s.alias = {q: "@" + q}
        if pos is not None:
            s.tags["@" + q] = (pos, frozenset())
        out: set[tuple] = set()
        for kind, s2, n, v in self.block(t.body, s, t):
            if kind == "raise":
                continue
            if s2.done:
                out.add(("kept", None))
            elif kind == "return" and v is not None and self.tainted(v, s2):
                out.add(("made", None))
            elif s2.walked:
                out.add(("kept", None))
            else:
                out.add(("lost", s2.tags.get("@" + q, (None, frozenset()))[0]))
        self.depth = depth
        self.active.discard(kk)
        r = tuple(sorted(out, key=repr))
        self.summaries[kk] = r
        return r

    # ---------------------------------------------------------------- tests
    def consts_of(self, e: ast.AST, f: Func) -> Optional[frozenset[str]]:
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return frozenset({e.value})
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            if all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in e.elts):
                return frozenset(x.value for x in e.elts)  # type: ignore
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("frozenset", "set", "list", "tuple") and len(e.args) == 1:
            return self.consts_of(e.args[0], f)
        if isinstance(e, ast.Name):
            vals = []
            g: Optional[Func] = f
            while g is not None:
                if e.id in g.params:
                    return None
                vals += [x.value for x in self.p.own_nodes(g) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
                g = g.parent
            vals += [x.value for x in f.module.tree.body if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
            vals += [x.value for x in f.module.tree.body if isinstance(x, ast.AnnAssign) and x.value is not None and isinstance(x.target, ast.Name) and x.target.id == e.id]
            if len(vals) == 1 and not isinstance(vals[0], ast.Name):
                return self.consts_of(vals[0], f)
        return None

    def refine(self, st: St, x: str, vals: frozenset[str], yes: bool) -> Optional[St]:
        pos, neg = st.tags.get(x, (None, frozenset()))
        if yes:
            vals = vals - neg if pos is None else (vals & pos) - neg
            if not vals:
                return None
            s = st.copy()
            s.tags[x] = (vals, frozenset())
            return s
        if pos is not None:
            if not pos - vals:
                return None
            s = st.copy()
            s.tags[x] = (pos - vals, frozenset())
            return s
        s = st.copy()
        s.tags[x] = (None, neg | vals)
        return s

    def cond(self, e: ast.AST, st: St, f: Func) -> list[tuple[bool, St]]:
        if isinstance(e, ast.Constant):
            return [(bool(e.value), st)]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, s) for b, s in self.cond(e.operand, st, f)]
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            out: list[tuple[bool, St]] = []
            cur = [st]
            for v in e.values:
                nxt = []
                for s in cur:
                    for b, s2 in self.cond(v, s, f):
                        (out.append((b, s2)) if b is stop else nxt.append(s2))
                cur = dedupe(nxt)
            return dedupe([(b, s) for b, s in out + [(not stop, s) for s in cur]])
        if isinstance(e, ast.Name) and e.id in st.consts:
            return [(bool(st.consts[e.id]), st)]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            x, op, r = self.tag_of(e.left, st), e.ops[0], e.comparators[0]
            vals = self.consts_of(r, f)
            if x is None and isinstance(op, (ast.Eq, ast.NotEq)) and self.tag_of(r, st) is not None:
                x, vals = self.tag_of(r, st), self.consts_of(e.left, f)
            if x is not None and vals is not None and isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
                pos = isinstance(op, (ast.Eq, ast.In))
                out = []
                for yes in (True, False):
                    s = self.refine(st, x, vals, yes)
                    if s is not None:
                        out.append((yes is pos, s))
                return out
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value is None:
                return self.presence(e.left, isinstance(op, ast.IsNot), st, f)
        if isinstance(e, ast.Name):
            return self.presence(e, True, st, f)
        if isinstance(e, ast.Call):
            ts, _ = self.p.callees(f.module, e)
            if len(ts) == 1 and ts[0].cls is None and not isinstance(ts[0].node, ast.Lambda) and self.depth < 5 and ts[0].module.name.startswith("srcmlcpp") and (
                    ts[0].parent is not None or any(isinstance(a, ast.Name) and (a.id in st.lists or st.alias.get(a.id, "").startswith("@")) for a in e.args)):
                return self.predicate(ts[0], e, st, f)
        return [(b, s) for s in self.effects(e, st, f) for b in (True, False)]

    def presence(self, x: ast.AST, when: bool, st: St, f: Func) -> list[tuple[bool, St]]:
        out = []
        for s in self.effects(x, st, f):
            out.append((when, s))
            a = s.copy()
            if self.tainted(x, s) and not self.canon(x, s).startswith("@"):
                for k, (pos, _n) in s.tags.items():
                    if k.startswith("@") and pos and all(self.leaf(t, k, s, f) for t in pos):
                        a.done = True
                        a.consts["nothing to keep"] = True
            out.append((not when, a))
        return out

    def leaf(self, tag: str, key: str, s: St, f: Func) -> bool:
        if tag in LEAF:
            return True
        base = s.consts.get("base of " + key)
        ctx = s.tags.get(str(base), (None, frozenset()))[0] if base else None
        if ctx is None and base:
            ctx = frozenset(self.context.get((f.qual, str(base).lstrip("@")), ())) or None
        return ctx is not None and all((c, tag) in LEAF_IN for c in ctx)

    def predicate(self, t: Func, c: ast.Call, st: St, f: Func) -> list[tuple[bool, St]]:
        s = st.copy()
        if t.parent is None:
            s.alias = {k: v for k, v in st.alias.items() if not k.isidentifier()}
            s.consts = {k: v for k, v in st.consts.items() if k.startswith("base of ")}
            s.tagof, s.lists = {}, {}
        for q, a in self.bind(t, c).items():
            s.alias[q] = self.canon(a, st)
            s.consts.pop(q, None)
            if isinstance(a, ast.Name) and a.id in st.lists:
                s.lists[q] = st.lists[a.id]
        self.depth += 1
        out = []
        for kind, s2, _n, v in self.block(t.body, s, t):
            if kind == "raise":
                continue
            rs = self.cond(v, s2, t) if v is not None else [(False, s2)]
            for b, s3 in rs:
                s4 = st.copy()
                s4.tags = dict(s3.tags)
                s4.done = s3.done
                out.append((b, s4))
        self.depth -= 1
        return dedupe(out)

    # ---------------------------------------------------------------- statements
    def block(self, body: list[ast.stmt], st: St, f: Func) -> list[tuple]:
        cur = [st]
        out: list[tuple] = []
        for n in body:
            nxt = []
            for s in cur:
                for r in self.stmt(n, s, f):
                    (nxt.append(r[1]) if r[0] == "next" else out.append(r))
            cur = dedupe(nxt)
            if len(cur) > 600:
                cur = cur[:600]
            if not cur:
                break
        return dedupe(out + [("next", s, None, None) for s in cur])

    def assign_name(self, name: str, v: ast.AST, st: St, s: St, f: Func) -> None:
        for d in (s.alias, s.tagof, s.consts, s.lists):
            d.pop(name, None)
        s.taint = s.taint - {name}
        s.local = s.local - {name}
        x = self.tag_of(v, st)
        if x is not None:
            s.tagof[name] = x
            return
        src = self.source(v, st, f)
        if src is not None and not isinstance(v, ast.Name):
            s.lists[name] = src
            return
        if isinstance(v, ast.Name) and v.id in st.lists:
            s.lists[name] = st.lists[v.id]
            s.alias[name] = self.canon(v, st)
            return
        if isinstance(v, ast.Constant) and isinstance(v.value, (bool, type(None))):
            s.consts[name] = v.value
            return
        if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)):
            s.alias[name] = self.canon(v, st)
            if self.tainted(v, st):
                s.taint = s.taint | {name}
            r = self.root(v)
            if r in st.local:
                s.local = s.local | {name}
            return
        if self.tainted(v, st):
            s.taint = s.taint | {name}
        s.local = s.local | {name}

    def store(self, t: ast.AST, v: Optional[ast.AST], st: St, aug: bool, f: Func) -> St:
        s = st.copy()
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                s = self.store(x, v, s, aug, f)
            return s
        if isinstance(t, ast.Name):
            if aug:
                if v is not None and self.tainted(v, st):
                    if self.outer(t, st) and t.id not in st.taint:
                        s.done = True
                    else:
                        s.taint = s.taint | {t.id}
                s.consts.pop(t.id, None)
                return s
            if v is not None:
                if isinstance(v, ast.BinOp) and any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(v)) and self.tainted(v, st) and self.outer(t, st) and t.id not in st.taint:
                    s.done = True
                    return s
                self.assign_name(t.id, v, st, s, f)
            return s
        hot = v is not None and self.tainted(v, st)
        if isinstance(t, ast.Attribute) and t.attr == "srcml_xml" and hot and isinstance(t.value, ast.Name) and not aug:
            # the wrapper is re-used for the child: it is the child from now on
            keys = [k for k in self.names(v, st)]
            if keys:
                s.alias[t.value.id] = keys[0]
                s.taint = s.taint | {t.value.id}
            return s
        if self.outer(t, st) and not self.tainted(self.base(t), st):
            pinned = any(k.startswith("@") and pos is not None for k, (pos, _n) in st.tags.items())
            if hot or (pinned and isinstance(v, ast.Constant) and v.value is not None):
                s.done = True
        elif hot:
            r = self.root(t)
            if r:
                s.taint = s.taint | {r}
        return s

    def base(self, t: ast.AST) -> ast.AST:
        return t.value if isinstance(t, (ast.Attribute, ast.Subscript)) else t

    def names(self, e: ast.AST, st: St) -> Iterator[str]:
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and st.alias.get(x.id, "").startswith("@"):
                yield st.alias[x.id]

    def stmt(self, n: ast.stmt, st: St, f: Func) -> list[tuple]:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal, ast.Delete)):
            return [("next", st, n, None)]
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            v = n.value
            ss = self.effects(v, st, f)
            tg = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in tg:
                ss = [self.store(t, v, s, isinstance(n, ast.AugAssign), f) for s in ss] if v is not None else ss
            return [("next", s, n, None) for s in ss]
        if isinstance(n, ast.Expr):
            return [("next", s, n, None) for s in self.effects(n.value, st, f)]
        if isinstance(n, ast.Return):
            return [("return", s, n, n.value) for s in self.effects(n.value, st, f)]
        if isinstance(n, ast.Raise):
            return [("raise", st, n, None)]
        if isinstance(n, ast.Assert):
            return [("next", s, n, None) for b, s in self.cond(n.test, st, f) if b]
        if isinstance(n, ast.If):
            out = []
            for b, s in self.cond(n.test, st, f):
                out += self.block(n.body if b else n.orelse, s, f)
            return dedupe(out)
        if isinstance(n, (ast.Break, ast.Continue)):
            return [("break" if isinstance(n, ast.Break) else "continue", st, n, None)]
        if isinstance(n, ast.With):
            ss = [st]
            for i in n.items:
                ss = [s2 for s in ss for s2 in self.effects(i.context_expr, s, f)]
            return dedupe([r for s in ss for r in self.block(n.body, s, f)])
        if isinstance(n, ast.Try):
            out = []
            for r in self.block(n.body, st, f):
                if r[0] == "next" and n.orelse:
                    out += self.block(n.orelse, r[1], f)
                else:
                    out.append(r)
            for h in n.handlers:
                s = st.copy()
                out += self.block(h.body, s, f)
            if n.finalbody:
                out2 = []
                for r in out:
                    for q in self.block(n.finalbody, r[1], f):
                        out2.append((r[0], q[1], r[2], r[3]) if q[0] == "next" else q)
                out = out2
            return dedupe(out)
        if isinstance(n, ast.For):
            return self.loop(n, st, f)
        if isinstance(n, ast.While):
            out = [("next", st, n, None)]
            for b, s in self.cond(n.test, st, f):
                if b:
                    for r in self.block(n.body, s, f):
                        out.append(r if r[0] in ("return", "raise") else ("next", r[1], n, None))
            return dedupe(out)
        return [("next", st, n, None)]

    def loop(self, n: ast.For, st: St, f: Func) -> list[tuple]:
        src = self.source(n.iter, st, f)
        if src is None:
            out = []
            for s0 in self.effects(n.iter, st, f):
                out.append(("next", s0, n, None))
                s = s0.copy()
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        for d in (s.alias, s.tagof, s.consts, s.lists):
                            d.pop(x.id, None)
                        s.taint = s.taint | {x.id} if self.tainted(n.iter, s0) else s.taint - {x.id}
                for r in self.block(n.body, s, f):
                    out.append(r if r[0] in ("return", "raise") else ("next", r[1], n, None))
            return dedupe(out)
        # children of an element
        li = self.loops.get(id(n))
        if li is None:
            li = self.loops[id(n)] = LoopInfo(f, n, src.lstrip("@"), self.isolating(n))
            li.named = isinstance(n.iter, ast.Name) or (isinstance(n.iter, ast.Call) and any(isinstance(a, ast.Name) and a.id in st.lists for a in n.iter.args))
            self.func_loops.setdefault(f.qual, []).append((src.lstrip("@"), id(n)))
        li.ctx |= set(st.tags.get(src, (None, frozenset()))[0] or ())
        s = st.copy()
        child = f"@child{n.lineno}"
        tgt = n.target
        it: ast.AST = n.iter
        s.done = s.walked = False
        s.taint = frozenset()
        s.local = frozenset()
        s.alias = {k: v for k, v in s.alias.items() if not v.startswith("@") or v.lstrip("@") == src.lstrip("@")}
        for k in list(s.alias):
            if s.alias[k] == src and src.startswith("@"):
                s.alias[k] = src.lstrip("@")
        if src.startswith("@") and src in s.tags:
            s.tags[src.lstrip("@")] = s.tags.pop(src)
        s.consts["base of " + child] = src.lstrip("@")
        if isinstance(tgt, ast.Tuple) and len(tgt.elts) == 2 and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate":
            idx, tgt = tgt.elts
            if isinstance(idx, ast.Name) and isinstance(it.args[0], ast.Name):
                s.alias[f"{self.canon(it.args[0], st)}[{idx.id}]"] = child
                s.alias.pop(idx.id, None)
        pre: list[St] = [s]
        if isinstance(tgt, ast.Name):
            for d in (s.tagof, s.consts, s.lists):
                d.pop(tgt.id, None)
            s.alias[tgt.id] = child
        comp = it.args[0] if isinstance(it, ast.Call) and it.args and isinstance(it.func, ast.Name) and it.func.id in WRAP else it
        res: list[tuple] = []
        if isinstance(comp, (ast.ListComp, ast.GeneratorExp)) and isinstance(comp.generators[0].target, ast.Name):
            nm = comp.generators[0].target.id
            for c in comp.generators[0].ifs:
                nxt = []
                for s1 in pre:
                    s1 = s1.copy()
                    s1.alias[nm] = child
                    for b, s2 in self.cond(c, s1, f):
                        (nxt.append(s2) if b else res.append(("next", s2, c, None)))
                pre = nxt
        for s1 in pre:
            res += self.block(n.body, s1, f)
        seen = {(a, b, id(c)) for a, b, c in li.lost}
        paths = 0
        out: list[tuple] = []
        for kind, s2, node, v in dedupe(res):
            paths += 1
            pos, neg = s2.tags.get(child, (None, frozenset()))
            if kind == "raise":
                li.kept |= set()
                continue
            if kind in ("break", "return") and node not in li.left:
                li.left.append(node)
            if s2.done or s2.walked:
                li.kept |= set(pos or ())
                li.keeps = li.keeps or "nothing to keep" not in s2.consts
            elif (pos, neg, id(node if node is not None else n)) not in seen:
                seen.add((pos, neg, id(node if node is not None else n)))
                li.lost.append((pos, neg, node if node is not None else n))
        li.paths = max(li.paths, paths)
        after = st.copy()
        if st.alias and src.startswith("@") or src in st.taint or ("@" + src) in st.alias.values():
            after.walked = True
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                for d in (after.alias, after.tagof, after.consts, after.lists):
                    d.pop(x.id, None)
        return [("next", after, n, None)]

    def isolating(self, n: ast.AST) -> bool:
        return any(isinstance(x, ast.Try) and x.handlers for x in ast.walk(n))

    def run(self, f: Func) -> None:
        st = St()
        for q in f.params:
            ctx = self.context.get((f.qual, q))
            if ctx:
                st.tags[q] = (frozenset(ctx), frozenset())
        self.block(f.body, st, f)


def handler_types(p: Project, m: Module, h: ast.ExceptHandler) -> set[str]:
    if h.type is None:
        return {"BaseException"}
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {dotted(t).split(".")[-1] for t in ts}


def runs_a_program(p: Project, f: Func) -> bool:
    return any(isinstance(x, ast.Call) and p.full_name(f.module, x.func).startswith(("subprocess.", "os.system", "os.popen")) for x in p.own_nodes(f))


class Raises:
    """explicit exceptions a function lets out: simple class name -> where it is raised"""

    def __init__(self, p: Project):
        self.p = p
        self.bases: dict[str, set[str]] = {}
        for full in p.classes:
            self.bases[full.split(".")[-1]] = {c.split(".")[-1] for c in p.mro(full)} | {ast.unparse(b).split(".")[-1] for c in p.mro(full) if c in p.classes for b in p.classes[c].node.bases}
        self.own: dict[str, list[tuple[ast.AST, str, Optional[Func]]]] = {}
        self.out: dict[str, dict[str, str]] = {}
        fs = [f for f in p.all_funcs() if not isinstance(f.node, ast.Lambda)]
        for f in fs:
            items = []
            for x in p.own_nodes(f):
                if isinstance(x, ast.Raise) and x.exc is not None:
                    if runs_a_program(p, f):
                        continue  # the environment fails, whatever the construct
                    e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
                    items.append((x, dotted(e).split(".")[-1], None))
                elif isinstance(x, ast.Call):
                    for t in p.callees(f.module, x)[0]:
                        items.append((x, "", t))
                    full = p.constructed_class(f.module, x)
                    if full:
                        for mn in ("__init__", "__post_init__"):
                            g = p.find_method(full, mn)
                            if g:
                                items.append((x, "", g))
            self.own[f.qual] = items
            self.out[f.qual] = {}
        changed = True
        while changed:
            changed = False
            for f in fs:
                for node, exc, t in self.own[f.qual]:
                    new = {exc: f.loc(node)} if t is None else self.out.get(t.qual, {})
                    for e, w in new.items():
                        if e not in self.out[f.qual] and not self.caught(f, node, e):
                            self.out[f.qual][e] = w
                            changed = True

    def is_a(self, e: str, handler: str) -> bool:
        if handler in ("Exception", "BaseException") or e == handler:
            return True
        if handler in self.bases.get(e, ()):
            return True
        import builtins
        a, b = getattr(builtins, e, None), getattr(builtins, handler, None)
        return isinstance(a, type) and isinstance(b, type) and issubclass(a, b)

    def caught(self, f: Func, node: ast.AST, e: str, within: Optional[ast.AST] = None) -> bool:
        n, par = node, self.p.parent_of.get(node)
        while par is not None and par is not f.node and n is not within:
            if isinstance(par, ast.Try) and any(n is s for s in par.body):
                for h in par.handlers:
                    if any(self.is_a(e, t) for t in handler_types(self.p, f.module, h)):
                        return not any(isinstance(x, ast.Raise) and x.exc is None for x in ast.walk(h))
            n, par = par, self.p.parent_of.get(par)
        return False


def run(p: Project, tier: str) -> Report:
    rep = Report("C11", "every path through an iteration over the children of a parsed element keeps the child, reports it, or skips a kind which is skipped on purpose; "
                        "each construct is parsed and adapted inside a try which keeps or reports it and goes on with its neighbours")
    W = Walker(p)
    fs = [f for f in p.all_funcs() if f.module.name.startswith("srcmlcpp.internal") and not isinstance(f.node, ast.Lambda)]
    for _ in range(2):
        W.summaries.clear()
        W.loops.clear()
        W.func_loops.clear()
        for f in fs:
            W.run(f)
    rep.count("functions_walked", len(fs))
    # the same element handed from one looping function to another
    groups: dict[int, set[int]] = {}
    for f in fs:
        own = {b: i for b, i in W.func_loops.get(f.qual, [])}
        for x in p.own_nodes(f):
            if not isinstance(x, ast.Call):
                continue
            for t in p.callees(f.module, x)[0]:
                if W.returns_elements(t):  # makes the list which is walked here: nothing is stored yet
                    continue
                for b, i in W.func_loops.get(t.qual, []):
                    for q, a in W.bind(t, x).items():
                        if q == b and isinstance(a, ast.Name) and a.id in own:
                            groups.setdefault(i, set()).add(own[a.id])
                            groups.setdefault(own[a.id], set()).add(i)
        ids = [i for _b, i in W.func_loops.get(f.qual, [])]
        bs = [b for b, _i in W.func_loops.get(f.qual, [])]
        for b1, i1 in zip(bs, ids):
            for b2, i2 in zip(bs, ids):
                if i1 != i2 and b1 == b2:
                    groups.setdefault(i1, set()).add(i2)
    for i, li in W.loops.items():
        rep.count("loops_over_parsed_children")
        rep.count("paths_through_iterations", li.paths)
        elsewhere: set[str] = set()
        for j in groups.get(i, ()):
            other = W.loops[j]
            lost_there = {t for pos, _n, _x in other.lost for t in (pos or ())}
            if any(pos is None for pos, _n, _x in other.lost):
                continue
            elsewhere |= {t for t in other.kept if t not in lost_there}
        rep.sample(f"{li.f.loc(li.node)} {li.f.qual}: {li.paths} paths, kinds kept: {sorted(li.kept)[:12]}", 25)
        if li.named and not li.keeps and any(o is not li and o.named and o.keeps and o.base == li.base and (o.f is li.f or o.f is li.f.parent or o.f.parent is li.f) for o in W.loops.values()):
            rep.count("passes_which_change_the_children_in_place")
            continue
        for pos, neg, node in li.lost:
            if pos is not None and all(t in SKIP or t in elsewhere for t in pos):
                rep.count("skips_pinned_by_a_tag_test")
                continue
            ctx = li.ctx | set(W.context.get((li.f.qual, li.base), ())) | asserted(li.f, li.base)
            if pos is None and ctx and all(c in CLOSED and CLOSED[c] <= neg for c in ctx):
                continue
            bad = sorted(t for t in pos if t not in SKIP and t not in elsewhere) if pos is not None else None
            what = f"of kind {', '.join(bad)}" if bad else "of a kind which is not tested"
            rep.add("loop", f"{li.f.qual}|{','.join(bad) if bad else '*'}", li.f.loc(node), f"a child of `{li.base}` {what} can be dropped by this iteration: it is neither stored nor reported")
        for node in li.left:
            rep.add("loop", f"{li.f.qual}|left early", li.f.loc(node), f"leaves the loop over the children of `{li.base}`: the remaining children are lost")
    rep.need("loops_over_parsed_children", 10)
    isolate(p, rep, W)
    asserts(p, rep)
    rep.assumptions = ["an element of srcML which is a leaf has its text, or nothing worth keeping", "implicit exceptions are not considered",
                       "comments are kept with the element they annotate (which comment goes where is not decided)"]
    return rep


def asserted(f: Func, name: str) -> set[str]:
    """the kinds this parameter is asserted to be of"""
    out: set[str] = set()
    for x in f.body if not isinstance(f.node, ast.Lambda) else []:
        if isinstance(x, ast.Assert) and isinstance(x.test, ast.Compare) and len(x.test.ops) == 1 and isinstance(x.test.ops[0], (ast.Eq, ast.In)) and ast.unparse(x.test.left) == f"{name}.tag()":
            out |= {c.value for c in ast.walk(x.test.comparators[0]) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
    return out


def dispatches(p: Project, f: Func, loop: ast.For) -> bool:
    """one construct after the other is handled, according to its kind"""
    names = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
    n = 0
    for x in ast.walk(loop):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "isinstance" and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id in names:
            n += 1
    return n >= 3 and any(isinstance(x, ast.Call) and (p.constructed_class(f.module, x) or "").split(".")[-1].startswith("Adapted") for x in ast.walk(loop))


def plain_children(p: Project, f: Func, e: ast.AST, depth: int) -> bool:
    if any(isinstance(x, ast.Attribute) and x.attr == "make_wrapped_children" for x in ast.walk(e)):
        return True
    if depth == 0:
        return False
    names = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
    return any(isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and any(isinstance(t, ast.Name) and t.id in names for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))
               and plain_children(p, f, x.value, depth - 1) for x in p.own_nodes(f))


def isolate(p: Project, rep: Report, W: Walker) -> None:
    R = Raises(p)
    todo: list[tuple[Func, ast.For]] = []
    for li in W.loops.values():
        block_like = "parse" in li.f.module.name and not plain_children(p, li.f, li.node.iter, 4)  # type: ignore
        if block_like or li.isolating:
            todo.append((li.f, li.node))  # type: ignore
    for f in p.all_funcs():
        if f.module.name.startswith("litgen.internal.adapted_types") and not isinstance(f.node, ast.Lambda):
            for x in p.own_nodes(f):
                if isinstance(x, ast.For) and dispatches(p, f, x):
                    todo.append((f, x))
    for f, loop in todo:
        rep.count("isolating_loops")
        for x in ast.walk(loop):
            if not isinstance(x, (ast.Call, ast.Raise)) or any(x is y for h in ast.walk(loop) if isinstance(h, ast.ExceptHandler) for y in ast.walk(h)) or any(x is y for y in ast.walk(loop.iter)):
                continue
            exc: dict[str, str] = {}
            if isinstance(x, ast.Raise):
                if x.exc is not None:
                    e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
                    exc = {dotted(e).split(".")[-1]: f.loc(x)}
            else:
                ts = list(p.callees(f.module, x)[0])
                full = p.constructed_class(f.module, x)
                if full:
                    ts += [g for g in (p.find_method(full, "__init__"), p.find_method(full, "__post_init__")) if g]
                for t in ts:
                    exc.update(R.out.get(t.qual, {}))
            rep.count("calls_in_isolating_loops")
            for e, w in sorted(exc.items()):
                if any(b.startswith("Srcmlcpp") for b in {e} | R.bases.get(e, set())):
                    if not R.caught(f, x, e, loop):
                        what = x.func if isinstance(x, ast.Call) else x
                        rep.add("isolate", f"{f.qual}|{ast.unparse(what)[:60]}", f.loc(x), f"{e} (raised at {w}) leaves the loop: one construct which cannot be handled costs its neighbours")
        for h in [h for h in ast.walk(loop) if isinstance(h, ast.ExceptHandler)]:
            rep.count("handlers")
            kept = False
            for x in ast.walk(h):
                if isinstance(x, ast.Call):
                    nm = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
                    if nm in REPORTS or reports(p, f, x, 3):
                        kept = True
            if not kept:
                rep.add("isolate", f"{f.qual}|handler", f.loc(h), "the handler does not report the construct which could not be handled")
            for x in ast.walk(h):
                if isinstance(x, (ast.Raise, ast.Break, ast.Return)):
                    rep.add("isolate", f"{f.qual}|handler leaves", f.loc(x), "the handler leaves the loop: the valid neighbours are lost")
    rep.need("isolating_loops", 1)


def reports(p: Project, f: Func, c: ast.Call, depth: int) -> bool:
    if depth == 0:
        return False
    ts = p.callees(f.module, c)[0]
    return bool(ts) and all(any(isinstance(x, ast.Call) and ((x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")) in REPORTS or reports(p, t, x, depth - 1))
                                for x in p.own_nodes(t)) for t in ts)


def asserts(p: Project, rep: Report) -> None:
    for f in p.all_funcs():
        if not f.module.name.startswith("srcmlcpp") or isinstance(f.node, ast.Lambda):
            continue
        hot: set[str] = set()
        nodes = p.own_nodes(f)

        def derived(e: ast.AST) -> bool:
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and x.id in hot:
                    return True
                if isinstance(x, ast.Call) and any(t.name.startswith("code_to_cpp_unit") for t in p.callees(f.module, x)[0]):
                    return True
            return False
        for _ in range(4):
            for x in nodes:
                if isinstance(x, ast.Assign) and derived(x.value):
                    hot |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        if not hot:
            continue
        rep.count("functions_parsing_generated_code")
        if f.name.startswith("code_to_cpp") or not reached_from_parse(p, f):
            continue
        for x in nodes:
            if isinstance(x, ast.Assert) and derived(x.test):
                rep.add("assert", f"{f.qual}|{ast.unparse(x.test)[:60]}", f.loc(x), "the result of parsing generated code is asserted: an AssertionError is not isolated and the whole file is lost")


def reached_from_parse(p: Project, f: Func, _c: dict = {}) -> bool:
    if "r" not in _c or _c["p"] is not p:
        todo = [g for g in p.all_funcs() if g.name == "parse_unit" or (g.module.name.startswith("srcmlcpp.internal") and g.name.startswith(("parse_", "fill_")))]
        seen = set()
        while todo:
            g = todo.pop()
            if g.qual in seen:
                continue
            seen.add(g.qual)
            for x in p.own_nodes(g):
                if isinstance(x, ast.Call):
                    todo += [t for t in p.callees(g.module, x)[0] if t.module.name.startswith("srcmlcpp.internal")]
        _c["r"], _c["p"] = seen, p
    return f.qual in _c["r"]
