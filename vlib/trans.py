"""Path-sensitive abstract interpretation of one function into a transducer.

Values are opaque terms (the same pure expression gives the same term), known constants, and sequences: what is appended to a list or to a
text is kept as the sequence of the terms appended. A loop is analysed as one generic iteration per control state (the flags which the body
assigns), so that the result says, for each path through an iteration, exactly what it appends and in which order. Nothing is executed and
no solver is used: a test which is not decided by the constants takes both ways, once per path."""
from __future__ import annotations

import ast
import re
from typing import Any, Callable, Iterable, Optional

from vlib.project import Func, Module, Project


class Explosion(Exception):
    pass


class Val:
    __slots__ = ("kind", "data", "_key")

    def __init__(self, kind: str, data: Any):
        self.kind, self.data = kind, data
        self._key: Optional[str] = None

    @property
    def key(self) -> str:
        if self._key is None:
            d = self.data
            k = self.kind
            if k == "k":
                r = repr(d)
            elif k == "sy":
                r = d
            elif k in ("cat", "tup"):
                r = ("+" if k == "cat" else "(") + ",".join(x.key for x in d) + ")"
            elif k == "ref":
                r = f"&{d}"
            elif k == "pre":
                r = f"pre[{d}]"
            elif k == "star":
                r = f"star[{d}]"
            else:
                r = f"{k}:{d}"
            self._key = r
        return self._key

    def __eq__(self, o: Any) -> bool:
        return isinstance(o, Val) and o.key == self.key

    def __hash__(self) -> int:
        return hash(self.key)

    def __repr__(self) -> str:
        return self.key


def k(v: Any) -> Val:
    return Val("k", v)


def sy(s: str) -> Val:
    return Val("sy", s)


def tup(vs: Iterable[Val]) -> Val:
    return Val("tup", tuple(vs))


def cat(*vs: Val) -> Val:
    out: list[Val] = []
    for v in vs:
        for x in (v.data if v.kind == "cat" else (v,)):
            if x.kind == "k" and isinstance(x.data, str):
                if x.data == "":
                    continue
                if out and out[-1].kind == "k" and isinstance(out[-1].data, str):
                    out[-1] = k(out[-1].data + x.data)
                    continue
            out.append(x)
    if not out:
        return k("")
    if len(out) == 1 and (out[0].kind == "k"):
        return out[0]
    return Val("cat", tuple(out))


class State:
    __slots__ = ("frames", "heap", "store", "facts", "events")

    def __init__(self) -> None:
        self.frames: dict[int, dict[str, Val]] = {}
        self.heap: dict[int, tuple] = {}       # ("list", items) | ("obj", class, attrs)
        self.store: dict[tuple[str, str], Val] = {}
        self.facts: dict[str, bool] = {}
        self.events: tuple = ()

    def copy(self) -> "State":
        s = State()
        s.frames = {i: dict(d) for i, d in self.frames.items()}
        s.heap = dict(self.heap)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.events = self.events
        return s

    def shape(self) -> tuple:
        return (tuple(sorted((i, tuple(sorted((n, v.key) for n, v in d.items()))) for i, d in self.frames.items())),
                tuple(sorted((i, h[0], tuple(x.key for x in h[1]) if h[0] == "list" else (h[1], tuple(sorted((n, v.key) for n, v in h[2].items())))) for i, h in self.heap.items())),
                tuple(sorted((a, v.key) for a, v in self.store.items())), tuple((e[0], e[1]) for e in self.events))


class Rec:
    """one path through one iteration"""

    def __init__(self, entry: dict[str, Val], facts: dict[str, bool], lists: dict[int, tuple[Val, ...]], texts: dict[str, Optional[tuple[Val, ...]]], events: tuple, outcome: str, ctl: dict[str, Val], store: dict[tuple[str, str], Val]):
        self.store = store
        self.final: dict[str, Val] = {}  # what the names changed by the loop hold at the end of the iteration
        self.entry, self.facts, self.lists, self.texts, self.events, self.outcome, self.exit = entry, facts, lists, texts, events, outcome, ctl


class Loop:
    def __init__(self, key: str, func: Func, node: ast.AST, source: Optional[Val], elem: Optional[Val]):
        self.key, self.func, self.node, self.source, self.elem = key, func, node, source, elem
        self.recs: list[Rec] = []


class Exit:
    def __init__(self, kind: str, val: Val, st: State, node: ast.AST):
        self.kind, self.val, self.st, self.node = kind, val, st, node


class Fn:
    def __init__(self, node: Any, frame: int, func: Func):
        self.node, self.frame, self.func = node, frame, func


INDEX = "ijkmn"
LISTLIKE = {"list", "tuple", "sorted", "set"}


class Trans:
    def __init__(self, p: Project, inline: Callable[[Func], bool] = lambda f: False, max_states: int = 1500, max_depth: int = 6, max_steps: int = 150000):
        self.steps, self.max_steps = 0, max_steps
        self.parents = {}
        self._iter_args = {}
        self.p, self.inline, self.max_states, self.max_depth = p, inline, max_states, max_depth
        self.loops: dict[str, Loop] = {}
        self.fns: dict[str, Fn] = {}
        self.nid = 0
        self.stack: list[Func] = []
        self.depth = 0

    # ---- entry point
    def run(self, f: Func, args: Optional[dict[str, Val]] = None, body: Optional[list[ast.stmt]] = None) -> list[Exit]:
        st = State()
        fid = self.fresh()
        st.frames[fid] = {}
        for i, a in enumerate(f.params):
            st.frames[fid][a] = (args or {}).get(a, sy(a))
        self.stack = [f]
        outs = self.block(f.body if body is None else body, st, fid, f)
        return [Exit("return" if o in ("return", "") else o, v, s, n) for o, v, s, n in outs]

    def fresh(self) -> int:
        self.nid += 1
        return self.nid

    # ---- statements: [(outcome, value, state, node)] with outcome "" for falling through
    def block(self, body: list[ast.stmt], st: State, fr: int, f: Func) -> list[tuple[str, Val, State, Any]]:
        live = [st]
        done: list[tuple[str, Val, State, Any]] = []
        last: Any = None
        for n in body:
            nxt: list[State] = []
            for s in live:
                for o, v, s2, nd in self.stmt(n, s, fr, f):
                    if o == "":
                        nxt.append(s2)
                    else:
                        done.append((o, v, s2, nd))
            live = self.merge(nxt)
            last = n
            if not live:
                break
        return done + [("", k(None), s, last) for s in live]

    def merge(self, sts: list[State]) -> list[State]:
        if len(sts) < 2:
            return sts
        by: dict[tuple, State] = {}
        for s in sts:
            h = s.shape()
            if h in by:
                o = by[h]
                o.facts = {a: b for a, b in o.facts.items() if s.facts.get(a) == b}
            else:
                by[h] = s
        if len(by) > self.max_states:
            raise Explosion(f"{len(by)} states")
        return list(by.values())

    def stmt(self, n: ast.stmt, st: State, fr: int, f: Func) -> list[tuple[str, Val, State, Any]]:
        self.steps += 1
        if self.steps > self.max_steps:
            raise Explosion(f"more than {self.max_steps} steps")
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return [("", k(None), st, n)]
            return [("", k(None), s, n) for _, s in self.ev(n.value, st, fr, f)]
        if isinstance(n, ast.Assign):
            out = []
            for v, s in self.ev(n.value, st, fr, f):
                for t in n.targets:
                    self.assign(t, v, s, fr, f)
                out.append(("", k(None), s, n))
            return out
        if isinstance(n, ast.AnnAssign):
            if n.value is None:
                return [("", k(None), st, n)]
            out = []
            for v, s in self.ev(n.value, st, fr, f):
                self.assign(n.target, v, s, fr, f)
                out.append(("", k(None), s, n))
            return out
        if isinstance(n, ast.AugAssign):
            load = ast.copy_location(self.as_load(n.target), n)
            out = []
            for c, s in self.ev(load, st, fr, f):
                for v, s2 in self.ev(n.value, s, fr, f):
                    if isinstance(n.op, ast.Add) and c.kind == "ref" and s2.heap.get(c.data, ("",))[0] == "list":
                        self.extend(c, v, s2)
                    else:
                        self.assign(n.target, self.binop(n.op, c, v, s2), s2, fr, f)
                    out.append(("", k(None), s2, n))
            return out
        if isinstance(n, ast.Return):
            if n.value is None:
                return [("return", k(None), st, n)]
            return [("return", v, s, n) for v, s in self.ev(n.value, st, fr, f)]
        if isinstance(n, ast.Raise):
            if n.exc is None:
                return [("raise", k(None), st, n)]
            return [("raise", v, s, n) for v, s in self.ev(n.exc, st, fr, f)]
        if isinstance(n, ast.Break):
            return [("break", k(None), st, n)]
        if isinstance(n, ast.Continue):
            return [("continue", k(None), st, n)]
        if isinstance(n, ast.If):
            out = []
            for b, s in self.test(n.test, st, fr, f):
                out += self.block(n.body if b else n.orelse, s, fr, f)
            return out
        if isinstance(n, (ast.For, ast.AsyncFor)):
            out = []
            for v, s in self.ev(n.iter, self.aged(st), fr, f):
                elem = self.element(n.iter, v, s, n)

                def body(s2: State, elem=elem) -> list:
                    self.assign(n.target, elem, s2, fr, f)
                    return self.block(n.body, s2, fr, f)
                out += self.loop(n, v, elem, body, s, fr, f, n.orelse)
            return out
        if isinstance(n, ast.While):
            def wbody(s2: State) -> list:
                res = []
                for b, s3 in self.test(n.test, s2, fr, f):
                    if b:
                        res += self.block(n.body, s3, fr, f)
                    else:
                        res.append(("end", k(None), s3, n))
                return res
            return self.loop(n, None, None, wbody, st, fr, f, n.orelse)
        if isinstance(n, (ast.With, ast.AsyncWith)):
            sts = [st]
            for it in n.items:
                nx = []
                for s in sts:
                    for v, s2 in self.ev(it.context_expr, s, fr, f):
                        if it.optional_vars is not None:
                            self.assign(it.optional_vars, v, s2, fr, f)
                        nx.append(s2)
                sts = nx
            out = []
            for s in sts:
                out += self.block(n.body, s, fr, f)
            return out
        if isinstance(n, ast.Try):
            start = st.copy()
            out = self.block(n.body, st, fr, f)
            res = []
            for o, v, s, nd in out:
                if o == "raise" and n.handlers:
                    continue
                if o == "" and n.orelse:
                    res += self.block(n.orelse, s, fr, f)
                else:
                    res.append((o, v, s, nd))
            for h in n.handlers:
                s = start.copy()
                if h.name:
                    s.frames[fr][h.name] = sy(f"exc@{h.lineno}")
                res += self.block(h.body, s, fr, f)
            if n.finalbody:
                fin = []
                for o, v, s, nd in res:
                    for o2, v2, s2, nd2 in self.block(n.finalbody, s, fr, f):
                        fin.append((o, v, s2, nd) if o2 == "" else (o2, v2, s2, nd2))
                res = fin
            return res
        if isinstance(n, ast.Assert):
            return [("", k(None), s, n) for b, s in self.test(n.test, st, fr, f) if b]
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = self.func_of(n, f)
            key = f"fn:{g.qual if g else n.name}#{fr}"
            self.fns[key] = Fn(n, fr, g or f)
            st.frames[fr][n.name] = Val("fn", key)
            return [("", k(None), st, n)]
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    st.frames[fr].pop(t.id, None)
            return [("", k(None), st, n)]
        if isinstance(n, ast.Match):
            out = []
            for c in n.cases:
                out += self.block(c.body, st.copy(), fr, f)
            return out + [("", k(None), st, n)]
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return [("", k(None), st, n)]
        return [("", k(None), st, n)]

    def func_of(self, node: ast.AST, f: Func) -> Optional[Func]:
        return next((g for g in self.p.funcs.values() if g.node is node), None)

    def as_load(self, t: ast.expr) -> ast.expr:
        if isinstance(t, ast.Name):
            return ast.Name(t.id, ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(t.value, t.attr, ast.Load())
        if isinstance(t, ast.Subscript):
            return ast.Subscript(t.value, t.slice, ast.Load())
        return t

    # ---- assignment
    def owner(self, name: str, st: State, fr: int, f: Func) -> int:
        if any(isinstance(x, (ast.Nonlocal, ast.Global)) and name in x.names for x in self.p.own_nodes(f)):
            up = self.parents.get(fr)
            while up is not None:
                if name in st.frames.get(up, {}):
                    return up
                up = self.parents.get(up)
        return fr

    parents: dict[int, Optional[int]] = {}

    def assign(self, t: ast.expr, v: Val, st: State, fr: int, f: Func) -> None:
        if isinstance(t, ast.Name):
            st.frames[self.owner(t.id, st, fr, f)][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, sy(f"{v.key}[{i}:]"), st, fr, f)
                elif v.kind == "tup" and len(v.data) == len(t.elts):
                    self.assign(e, v.data[i], st, fr, f)
                else:
                    self.assign(e, sy(f"{v.key}[{i}]"), st, fr, f)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr, f)[0][0]
            self.setattr(b, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr, f)[0][0]
            i = self.ev(t.slice, st, fr, f)[0][0] if not isinstance(t.slice, ast.Slice) else sy("slice")
            if b.kind == "ref" and st.heap.get(b.data, ("",))[0] == "list":
                h = st.heap[b.data]
                st.heap[b.data] = ("list", h[1] + (Val("set", tup((i, v)).key),))
            st.events += (("setitem", b.key, (i, v), t),)

    def setattr(self, b: Val, attr: str, v: Val, st: State, node: ast.AST) -> None:
        if b.kind == "ref" and st.heap.get(b.data, ("",))[0] == "obj":
            h = st.heap[b.data]
            a = dict(h[2])
            a[attr] = v
            st.heap[b.data] = ("obj", h[1], a)
        else:
            st.store[(b.key, attr)] = v
        st.events += (("setattr", f"{b.key}.{attr}", (v,), node),)

    def extend(self, ref: Val, v: Val, st: State) -> None:
        h = st.heap[ref.data]
        if v.kind == "ref" and st.heap.get(v.data, ("",))[0] == "list":
            items = st.heap[v.data][1]
        elif v.kind == "tup":
            items = v.data
        else:
            items = (Val("all", v.key),)
        st.heap[ref.data] = ("list", h[1] + items)

    # ---- loops
    def element(self, it: ast.expr, v: Val, st: State, node: ast.AST) -> Val:
        x = f"<{INDEX[min(self.depth, len(INDEX) - 1)]}>"
        if isinstance(it, ast.Call):
            fn = it.func.id if isinstance(it.func, ast.Name) else it.func.attr if isinstance(it.func, ast.Attribute) else ""
            inner = self._iter_args.get(id(it))
            if fn == "enumerate" and inner:
                return tup((sy(x), sy(f"{self.content(inner[0], st)}[{x}]")))
            if fn == "range" and inner:
                return sy(x)
            if fn == "zip" and inner:
                return tup(sy(f"{self.content(y, st)}[{x}]") for y in inner)
            if fn == "items":
                return tup((sy(f"{v.key}[{x}k]"), sy(f"{v.key}[{x}v]")))
        return sy(f"{self.content(v, st)}[{x}]")

    def aged(self, st: State) -> State:
        """what still refers to the index of an earlier loop of the same depth (a variable kept after a break) must not be confused with the new one"""
        x = INDEX[min(self.depth, len(INDEX) - 1)]
        old = re.compile(rf"<{x}(?=[-+>kv])")
        new = f"<{x}'"

        def ren(v: Val) -> Val:
            if not old.search(v.key):
                return v
            if v.kind in ("cat", "tup"):
                return Val(v.kind, tuple(ren(y) for y in v.data))
            if v.kind == "sy":
                return sy(old.sub(new, v.key))
            if v.kind == "not":
                return Val("not", ren(v.data))
            return v
        if not any(old.search(v.key) for d in st.frames.values() for v in d.values()):
            return st
        s = st.copy()
        s.frames = {i: {n: ren(v) for n, v in d.items()} for i, d in s.frames.items()}
        s.facts = {old.sub(new, q): b for q, b in s.facts.items()}
        s.events = tuple((e[0], e[1], tuple(ren(v) for v in e[2]), e[3], ren(e[4])) if len(e) == 5 and e[0] == "call" else e for e in s.events)
        return s

    _iter_args: dict[int, list[Val]] = {}

    def assigned(self, node: ast.AST) -> tuple[set[str], set[str]]:
        names: set[str] = set()
        attrs: set[str] = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                attrs.add(x.attr)
        return names, attrs

    def appending(self, node: ast.AST, f: Func) -> set[str]:
        """names which are extended in place by the loop: x += .., x = x + .., x = f'{x}..', possibly in a nested function"""
        out: set[str] = set()
        for root in [node] + [b for b in ast.walk(f.node) if isinstance(b, (ast.FunctionDef, ast.Lambda)) and b is not f.node]:
            for x in ast.walk(root):
                if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add):
                    t = x.target
                    out.add(t.id if isinstance(t, ast.Name) else "." + t.attr if isinstance(t, ast.Attribute) else "")
                elif isinstance(x, ast.Assign) and len(x.targets) == 1:
                    t, v = x.targets[0], x.value
                    while isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
                        v = v.left
                    if isinstance(v, ast.JoinedStr) and v.values and isinstance(v.values[0], ast.FormattedValue):
                        v = v.values[0].value
                    if isinstance(t, ast.Name) and isinstance(v, ast.Name) and t.id == v.id and v is not x.value:
                        out.add(t.id)
                    if isinstance(t, ast.Attribute) and isinstance(v, ast.Attribute) and t.attr == v.attr and v is not x.value:
                        out.add("." + t.attr)
        return out - {""}

    def loop(self, n: ast.AST, src: Optional[Val], elem: Optional[Val], body: Callable[[State], list], st: State, fr: int, f: Func, orelse: list[ast.stmt]) -> list:
        key = f"{f.qual}:{getattr(n, 'lineno', 0)}:{getattr(n, 'col_offset', 0)}:{len(self.stack)}"
        if src is not None:
            key += ":" + src.key[:60]
        L = self.loops.setdefault(key, Loop(key, f, n, src, elem))
        names, attrs = self.assigned(n)
        app = self.appending(n, f)
        nested = set().union(*[self.assigned(b)[0] for b in ast.walk(f.node) if isinstance(b, (ast.FunctionDef, ast.Lambda)) and b is not f.node and any(isinstance(z, ast.Nonlocal) for z in ast.walk(b))] or [set()])
        changed = names | nested
        chain = [fr]
        while self.parents.get(chain[-1]) is not None:
            chain.append(self.parents[chain[-1]])  # type: ignore
        marks = re.compile(rf"<{INDEX[min(self.depth, len(INDEX) - 1)]}[-+>kv]")

        def text_vars(s: State) -> dict[str, tuple[int, str]]:
            r = {}
            for fi in chain:
                for name, v in s.frames.get(fi, {}).items():
                    if name in app and name in changed and (v.kind in ("cat", "pre") or v.kind == "k" and isinstance(v.data, str) or v.kind == "sy"):
                        r[f"{name}"] = (fi, name)
            return r

        def text_attrs(s: State) -> list[tuple[int, str]]:
            r = []
            for hid, h in s.heap.items():
                if h[0] == "obj":
                    for a, v in h[2].items():
                        if "." + a in app and (v.kind in ("cat", "pre", "sy") or v.kind == "k" and isinstance(v.data, str)):
                            r.append((hid, a))
            return r

        base_lists = {i: h[1] for i, h in st.heap.items() if h[0] == "list"}
        base_texts = {nm: st.frames[fi][n2] for nm, (fi, n2) in text_vars(st).items()}
        base_attrs = {(hid, a): st.heap[hid][2][a] for hid, a in text_attrs(st)}

        def opened(s: State) -> State:
            s = s.copy()
            for i in base_lists:
                s.heap[i] = ("list", (Val("pre", f"{i}"),))
            for nm, (fi, n2) in text_vars(s).items():
                s.frames[fi][n2] = Val("cat", (Val("pre", nm),))
            for hid, a in base_attrs:
                h = s.heap[hid]
                d = dict(h[2])
                d[a] = Val("cat", (Val("pre", f"{hid}.{a}"),))
                s.heap[hid] = ("obj", h[1], d)
            s.facts = {a: b for a, b in st.facts.items() if not marks.search(a)}
            s.store = {a: b for a, b in s.store.items() if a in st.store or not marks.search(a[0])}
            s.events = ()
            return s

        def control(s: State) -> tuple:
            return tuple(sorted((fi, nm, s.frames[fi][nm].key) for fi in chain for nm in s.frames.get(fi, {}) if nm in changed))

        seen: dict[tuple, State] = {}
        todo = [opened(st)]
        exits: list[tuple[str, Val, State, Any]] = []
        versions: dict[tuple[int, str], set[str]] = {}
        any_append: set[Any] = set()
        rounds = 0
        while todo:
            s0 = todo.pop()
            c = control(s0)
            if c in seen:
                continue
            seen[c] = s0
            rounds += 1
            if rounds > 60:
                raise Explosion(f"{key}: more than 60 control states")
            entry = {nm: s0.frames[fi][nm] for fi in chain for nm in s0.frames.get(fi, {}) if nm in changed and s0.frames[fi][nm].kind == "k"}
            self.depth += 1
            try:
                outs = body(s0.copy())
            finally:
                self.depth -= 1
            for o, v, s, nd in outs:
                lists: dict[int, tuple[Val, ...]] = {}
                for i in base_lists:
                    it = s.heap[i][1]
                    if it and it[0] == Val("pre", f"{i}"):
                        lists[i] = it[1:]
                    else:
                        lists[i] = (Val("rewritten", i),) + it
                    if lists[i]:
                        any_append.add(i)
                texts: dict[str, Optional[tuple[Val, ...]]] = {}
                for nm, (fi, n2) in text_vars(s0).items():
                    w = s.frames[fi].get(n2, k(None))
                    parts = w.data if w.kind == "cat" else (w,)
                    texts[nm] = parts[1:] if parts and parts[0] == Val("pre", nm) else None
                    if texts[nm] != ():
                        any_append.add(nm)
                for hid, a in base_attrs:
                    w = s.heap[hid][2][a]
                    parts = w.data if w.kind == "cat" else (w,)
                    nm = f"{hid}.{a}"
                    texts[nm] = parts[1:] if parts and parts[0] == Val("pre", nm) else None
                    if texts[nm] != ():
                        any_append.add(nm)
                facts = {a: b for a, b in s.facts.items() if s0.facts.get(a) != b}
                ctl = {nm: s.frames[fi][nm] for fi in chain for nm in s.frames.get(fi, {}) if nm in changed and s.frames[fi][nm].kind == "k"}
                if o != "end":
                    L.recs.append(Rec(entry, facts, lists, texts, s.events, o or "next", ctl, {a: b for a, b in s.store.items() if s0.store.get(a) != b}))
                    L.recs[-1].final = {nm: s.frames[fi][nm] for fi in chain for nm in s.frames.get(fi, {}) if nm in changed}
                if o in ("", "continue"):
                    nx = opened(s)
                    for fi in chain:
                        d = nx.frames.get(fi, {})
                        for nm in list(d):
                            if nm in changed and d[nm].kind != "fn" and not (d[nm].kind == "cat" and d[nm].data[0].kind == "pre"):
                                if d[nm].kind == "k" and (d[nm].data is None or isinstance(d[nm].data, (bool, str))):
                                    vs = versions.setdefault((fi, nm), set())
                                    vs.add(d[nm].key)
                                    if len(vs) <= 4:
                                        continue
                                if d[nm].kind == "ref" and d[nm].data in base_lists:
                                    continue
                                d[nm] = sy(f"carried:{nm}@{getattr(n, 'lineno', 0)}")
                    nx.heap = {i: h for i, h in nx.heap.items() if i in s0.heap}
                    todo.append(nx)
                elif o in ("return", "raise", "break", "end"):
                    exits.append((o, v, s, nd))
        res: list[tuple[str, Val, State, Any]] = []

        def closed(s: State, extra: bool) -> State:
            s = s.copy()
            star = Val("star", key)
            for i, items in base_lists.items():
                cur = s.heap[i][1]
                tail = cur[1:] if cur and cur[0] == Val("pre", f"{i}") else (Val("rewritten", i),) + cur
                s.heap[i] = ("list", items + ((star,) if i in any_append else ()) + (tail if extra else ()))
            for nm, (fi, n2) in text_vars(s).items():
                if nm not in base_texts:
                    continue
                w = s.frames[fi][n2]
                parts = w.data if w.kind == "cat" else (w,)
                if parts and parts[0] == Val("pre", nm):
                    tail = parts[1:]
                    s.frames[fi][n2] = cat(base_texts[nm], *((star,) if nm in any_append else ()), *(tail if extra else ()))
            for (hid, a), b in base_attrs.items():
                if hid not in s.heap:
                    continue
                h = s.heap[hid]
                w = h[2][a]
                nm = f"{hid}.{a}"
                parts = w.data if w.kind == "cat" else (w,)
                if parts and parts[0] == Val("pre", nm):
                    d = dict(h[2])
                    d[a] = cat(b, *((star,) if nm in any_append else ()), *(parts[1:] if extra else ()))
                    s.heap[hid] = ("obj", h[1], d)
            evs = tuple(e for r in L.recs for e in r.events if e[0] in ("call", "setattr"))
            s.events = st.events + tuple({(e[0], e[1]): ("loop:" + e[0],) + e[1:] for e in evs if not e[0].startswith("loop:")}.values()) + (s.events if extra else ())
            return s

        for o, v, s, nd in exits:
            res.append(("" if o in ("break", "end") else o, v, closed(s, True), nd))
        if not isinstance(n, ast.While):
            for s0 in seen.values():
                s1 = closed(s0, False)
                if orelse:
                    res += self.block(orelse, s1, fr, f)
                else:
                    res.append(("", k(None), s1, n))
        live = self.merge([s for o, _, s, _ in res if o == ""])
        return [r for r in res if r[0] != ""] + [("", k(None), s, n) for s in live]

    # ---- tests
    def test(self, e: ast.expr, st: State, fr: int, f: Func) -> list[tuple[bool, State]]:
        if isinstance(e, ast.BoolOp):
            res: list[tuple[bool, State]] = []
            live = [st]
            stop = isinstance(e.op, ast.Or)
            for x in e.values:
                nx = []
                for s in live:
                    for b, s2 in self.test(x, s, fr, f):
                        (res.append((b, s2)) if b == stop else nx.append(s2))
                live = nx
            return res + [(not stop, s) for s in live]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, s) for b, s in self.test(e.operand, st, fr, f)]
        out: list[tuple[bool, State]] = []
        for v, s in self.ev(e, st, fr, f):
            out += self.truth(v, s)
        return out

    def truth(self, v: Val, s: State) -> list[tuple[bool, State]]:
        if v.kind == "k":
            return [(bool(v.data), s)]
        if v.kind == "not":
            return [(not b, s2) for b, s2 in self.truth(v.data, s)]
        if v.kind == "fn":
            return [(True, s)]
        if v.kind == "tup":
            return [(len(v.data) > 0, s)]
        if v.kind == "ref":
            h = s.heap.get(v.data, ("",))
            if h[0] == "obj":
                return [(True, s)]
            if h[0] == "list" and not h[1]:
                return [(False, s)]
            if h[0] == "list" and any(x.kind not in ("star", "pre", "all") for x in h[1]):
                return [(True, s)]
            key = "nonempty:" + ",".join(x.key for x in h[1])
        elif v.kind == "cat":
            if any(x.kind == "k" and x.data for x in v.data):
                return [(True, s)]
            key = v.key
        else:
            key = v.key
        if key in s.facts:
            return [(s.facts[key], s)]
        t, u = s, s.copy()
        t.facts[key] = True
        u.facts[key] = False
        return [(True, t), (False, u)]

    # ---- expressions
    def ev(self, e: ast.expr, st: State, fr: int, f: Func) -> list[tuple[Val, State]]:
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(sy(ast.unparse(e)), st)]
        return m(e, st, fr, f)

    def evs(self, es: list[ast.expr], st: State, fr: int, f: Func) -> list[tuple[list[Val], State]]:
        cur: list[tuple[list[Val], State]] = [([], st)]
        for e in es:
            nx = []
            for vs, s in cur:
                for v, s2 in self.ev(e.value if isinstance(e, ast.Starred) else e, s, fr, f):
                    nx.append((vs + [v], s2))
            cur = nx
        return cur

    def e_Constant(self, e: ast.Constant, st: State, fr: int, f: Func) -> list:
        return [(k(e.value), st)]

    def e_Name(self, e: ast.Name, st: State, fr: int, f: Func) -> list:
        x: Optional[int] = fr
        while x is not None:
            if e.id in st.frames.get(x, {}):
                return [(st.frames[x][e.id], st)]
            x = self.parents.get(x)
        for n in f.module.tree.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Constant):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(t, ast.Name) and t.id == e.id for t in ts):
                    return [(k(n.value.value), st)]
        return [(sy(e.id), st)]

    def e_Attribute(self, e: ast.Attribute, st: State, fr: int, f: Func) -> list:
        return [(self.getattr(b, e.attr, s), s) for b, s in self.ev(e.value, st, fr, f)]

    def getattr(self, b: Val, attr: str, s: State) -> Val:
        if b.kind == "ref":
            h = s.heap.get(b.data, ("",))
            if h[0] == "obj" and attr in h[2]:
                return h[2][attr]
        elif (b.key, attr) in s.store:
            return s.store[(b.key, attr)]
        return sy(f"{b.key}.{attr}")

    def e_Subscript(self, e: ast.Subscript, st: State, fr: int, f: Func) -> list:
        out = []
        for b, s in self.ev(e.value, st, fr, f):
            if isinstance(e.slice, ast.Slice):
                lo = self.ev(e.slice.lower, s, fr, f)[0][0].key if e.slice.lower else ""
                hi = self.ev(e.slice.upper, s, fr, f)[0][0].key if e.slice.upper else ""
                sp = self.ev(e.slice.step, s, fr, f)[0][0].key if e.slice.step else ""
                if b.kind == "cat" and (lo, hi, sp) == ("", "-1", "") and b.data[-1].kind == "k" and len(str(b.data[-1].data)) > 0:
                    out.append((cat(*b.data[:-1], k(b.data[-1].data[:-1])), s))
                    continue
                name = self.content(b, s)
                out.append((sy(f"{name}[{lo}:{hi}{':' + sp if sp else ''}]"), s))
                continue
            for i, s2 in self.ev(e.slice, s, fr, f):
                if b.kind == "tup" and i.kind == "k" and isinstance(i.data, int) and -len(b.data) <= i.data < len(b.data):
                    out.append((b.data[i.data], s2))
                else:
                    out.append((sy(f"{b.key}[{i.key}]"), s2))
        return out

    def content(self, b: Val, s: State) -> str:
        if b.kind == "ref" and s.heap.get(b.data, ("",))[0] == "list":
            return "list(" + ",".join(x.key for x in s.heap[b.data][1]) + ")"
        return b.key

    def e_JoinedStr(self, e: ast.JoinedStr, st: State, fr: int, f: Func) -> list:
        cur: list[tuple[list[Val], State]] = [([], st)]
        for x in e.values:
            if isinstance(x, ast.Constant):
                cur = [(vs + [k(x.value)], s) for vs, s in cur]
            elif isinstance(x, ast.FormattedValue):
                cur = [(vs + [v], s2) for vs, s in cur for v, s2 in self.ev(x.value, s, fr, f)]
        return [(cat(*vs), s) for vs, s in cur]

    def e_List(self, e: Any, st: State, fr: int, f: Func) -> list:
        out = []
        for vs, s in self.evs(e.elts, st, fr, f):
            i = self.fresh_heap(e, s)
            items: list[Val] = []
            for x, v in zip(e.elts, vs):
                if isinstance(x, ast.Starred):
                    items += list(s.heap[v.data][1]) if v.kind == "ref" and s.heap.get(v.data, ("",))[0] == "list" else list(v.data) if v.kind == "tup" else [Val("all", v.key)]
                else:
                    items.append(v)
            s.heap[i] = ("list", tuple(items))
            out.append((Val("ref", i), s))
        return out

    def fresh_heap(self, e: ast.AST, s: State) -> int:
        base = abs(hash((getattr(e, "lineno", 0), getattr(e, "col_offset", 0), len(self.stack), type(e).__name__))) % 100000 * 1000
        while base in s.heap:
            base += 1
        return base

    def e_Tuple(self, e: ast.Tuple, st: State, fr: int, f: Func) -> list:
        return [(tup(vs), s) for vs, s in self.evs(e.elts, st, fr, f)]

    def e_Dict(self, e: ast.Dict, st: State, fr: int, f: Func) -> list:
        out = []
        for vs, s in self.evs([x for x in e.keys if x is not None] + list(e.values), st, fr, f):
            out.append((sy("dict(" + ",".join(v.key for v in vs) + ")"), s))
        return out

    def e_BinOp(self, e: ast.BinOp, st: State, fr: int, f: Func) -> list:
        out = []
        for a, s in self.ev(e.left, st, fr, f):
            for b, s2 in self.ev(e.right, s, fr, f):
                out.append((self.binop(e.op, a, b, s2, e), s2))
        return out

    def binop(self, op: ast.operator, a: Val, b: Val, s: State, e: Optional[ast.AST] = None) -> Val:
        if a.kind == "k" and b.kind == "k":
            try:
                if isinstance(op, ast.Add):
                    return k(a.data + b.data)
                if isinstance(op, ast.Sub):
                    return k(a.data - b.data)
                if isinstance(op, ast.Mult) and isinstance(a.data, (int, str)) and isinstance(b.data, (int, str)) and len(str(a.data)) + len(str(b.data)) < 60:
                    return k(a.data * b.data)
            except TypeError:
                pass
        if isinstance(op, (ast.Add, ast.Sub)) and a.kind == "sy" and re.fullmatch(r"<[ijkmn][+-]?\d*>", a.data) and b.kind == "k" and isinstance(b.data, int):
            m = re.fullmatch(r"<[ijkmn]([+-]\d+)?>", a.data)
            o = (int(m.group(1)) if m and m.group(1) else 0) + (b.data if isinstance(op, ast.Add) else -b.data)
            return sy(f"<{a.data[1]}>" if o == 0 else f"<{a.data[1]}{o:+d}>")
        if isinstance(op, ast.Add):
            if a.kind == "ref" and s.heap.get(a.data, ("",))[0] == "list":
                i = self.fresh_heap(e or ast.Pass(), s)
                s.heap[i] = ("list", s.heap[a.data][1])
                r = Val("ref", i)
                self.extend(r, b, s)
                return r
            ints = [x for x in (a, b) if x.kind == "k" and not isinstance(x.data, str)]
            if not ints:
                return cat(a, b)
        return sy(f"({a.key}{type(op).__name__}{b.key})")

    def e_UnaryOp(self, e: ast.UnaryOp, st: State, fr: int, f: Func) -> list:
        if isinstance(e.op, ast.Not):
            return [(k(not b), s) for b, s in self.test(e.operand, st, fr, f)]
        return [(k(-v.data) if isinstance(e.op, ast.USub) and v.kind == "k" and isinstance(v.data, (int, float)) else sy(f"{type(e.op).__name__}({v.key})"), s) for v, s in self.ev(e.operand, st, fr, f)]

    def e_BoolOp(self, e: ast.BoolOp, st: State, fr: int, f: Func) -> list:
        out: list[tuple[Val, State]] = []
        live = [st]
        stop = isinstance(e.op, ast.Or)
        for i, x in enumerate(e.values):
            nx = []
            for s in live:
                for v, s2 in self.ev(x, s, fr, f):
                    if i == len(e.values) - 1:
                        out.append((v, s2))
                        continue
                    for b, s3 in self.truth(v, s2):
                        if b == stop:
                            out.append((v if v.kind == "k" else (k(True) if stop and self.boolish(x) else k(False) if not stop and self.boolish(x) else v), s3))
                        else:
                            nx.append(s3)
            live = nx
        return out

    def boolish(self, e: ast.expr) -> bool:
        return isinstance(e, (ast.Compare, ast.BoolOp)) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) or \
            isinstance(e, ast.Call) and re.match(r"is_|has_|does_|looks_|_is_|_has_|shall_|starts|ends|isinstance|any|all", (e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else "")) is not None

    def e_IfExp(self, e: ast.IfExp, st: State, fr: int, f: Func) -> list:
        out = []
        for b, s in self.test(e.test, st, fr, f):
            out += self.ev(e.body if b else e.orelse, s, fr, f)
        return out

    def e_NamedExpr(self, e: ast.NamedExpr, st: State, fr: int, f: Func) -> list:
        out = []
        for v, s in self.ev(e.value, st, fr, f):
            self.assign(e.target, v, s, fr, f)
            out.append((v, s))
        return out

    def e_Lambda(self, e: ast.Lambda, st: State, fr: int, f: Func) -> list:
        key = f"lambda@{e.lineno}:{e.col_offset}#{fr}"
        self.fns[key] = Fn(e, fr, f)
        return [(Val("fn", key), st)]

    def e_Starred(self, e: ast.Starred, st: State, fr: int, f: Func) -> list:
        return self.ev(e.value, st, fr, f)

    def e_Compare(self, e: ast.Compare, st: State, fr: int, f: Func) -> list:
        if len(e.ops) != 1:
            return [(sy("cmp(" + ",".join(v.key for v in vs) + ")"), s) for vs, s in self.evs([e.left] + e.comparators, st, fr, f)]
        out = []
        for (a, b), s in self.evs([e.left, e.comparators[0]], st, fr, f):
            out.append((self.cmp(e.ops[0], a, b, s), s))
        return out

    def cmp(self, op: ast.cmpop, a: Val, b: Val, s: State) -> Val:
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn, ast.GtE, ast.LtE))
        if isinstance(op, (ast.Gt, ast.LtE)):
            a, b = b, a
        # now: Lt(a, b), possibly negated: a >= b is not (a < b); a <= b is not (b < a)
        kind = "in" if isinstance(op, (ast.In, ast.NotIn)) else "lt" if isinstance(op, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) else "eq"
        if a.kind == "k" and b.kind == "k":
            try:
                r = a.data in b.data if kind == "in" else a.data < b.data if kind == "lt" else a.data == b.data
                return k(bool(r) != neg)
            except TypeError:
                pass
        if kind == "eq" and a.key == b.key:
            return k(not neg)
        if kind == "eq" and any(x == k(None) for x in (a, b)) and any(x.kind in ("ref", "tup", "cat", "fn") for x in (a, b)):
            return k(neg)
        # emptiness: len(x) == 0, len(x) > 0, x == ""
        for x, y in ((a, b), (b, a)):
            if kind == "eq" and y.kind == "k" and y.data in (0, "") and not isinstance(y.data, bool):
                m = re.fullmatch(r"len\((.*)\)", x.key) if y.data == 0 else None
                inner = m.group(1) if m else (x.key if y.data == "" else None)
                if inner is not None:
                    return Val("sy", inner) if neg else Val("not", Val("sy", inner))
        if kind == "lt" and a == k(0):
            m = re.fullmatch(r"len\((.*)\)", b.key)
            if m:
                return Val("not", Val("sy", m.group(1))) if neg else Val("sy", m.group(1))
        ks = sorted((a.key, b.key)) if kind == "eq" else [a.key, b.key]
        v = sy(f"{kind}({ks[0]},{ks[1]})")
        return Val("not", v) if neg else v

    def comp(self, e: Any, st: State, fr: int, f: Func) -> list:
        gens = e.generators
        inner = self.fresh()
        self.parents[inner] = fr
        st.frames[inner] = {}
        acc = self.fresh_heap(e, st)
        st.heap[acc] = ("list", ())

        def gen(i: int, s: State) -> list:
            if i == len(gens):
                res = []
                elt = e.elt if not isinstance(e, ast.DictComp) else e.value
                for v, s2 in self.ev(elt, s, inner, f):
                    s2.heap[acc] = ("list", s2.heap[acc][1] + (v,))
                    res.append(("", k(None), s2, e))
                return res
            g = gens[i]
            res = []
            for v, s2 in self.ev(g.iter, s, inner, f):
                elem = self.element(g.iter, v, s2, g)

                def body(s3: State, elem=elem, g=g) -> list:
                    self.assign(g.target, elem, s3, inner, f)
                    cur = [s3]
                    outs = []
                    for c in g.ifs:
                        nx = []
                        for s4 in cur:
                            for b, s5 in self.test(c, s4, inner, f):
                                if b:
                                    nx.append(s5)
                                else:
                                    outs.append(("", k(None), s5, e))
                        cur = nx
                    for s4 in cur:
                        outs += gen(i + 1, s4)
                    return outs
                res += self.loop(g, v, elem, body, s2, inner, f, [])
            return res
        for g in gens:
            g.lineno, g.col_offset = e.lineno, e.col_offset  # type: ignore
        out = []
        for o, _, s, _ in gen(0, st):
            s.frames.pop(inner, None)
            out.append((Val("ref", acc), s))
        return out

    e_ListComp = e_GeneratorExp = e_SetComp = e_DictComp = comp

    def e_Call(self, e: ast.Call, st: State, fr: int, f: Func) -> list:
        out = []
        recv: list[tuple[Optional[Val], State]]
        if isinstance(e.func, ast.Attribute):
            recv = [(b, s) for b, s in self.ev(e.func.value, st, fr, f)]
        else:
            recv = [(None, st)]
        for b, s in recv:
            for vs, s2 in self.evs(list(e.args) + [x.value for x in e.keywords], s, fr, f):
                out += self.call(e, b, vs[:len(e.args)], {x.arg or "**": v for x, v in zip(e.keywords, vs[len(e.args):])}, s2, fr, f)
        return out

    def call(self, e: ast.Call, b: Optional[Val], args: list[Val], kw: dict[str, Val], s: State, fr: int, f: Func) -> list:
        name = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
        if b is None and name in ("enumerate", "range", "zip", "overlapping_pairs"):
            self._iter_args[id(e)] = args
        ak = ",".join([self.content(x, s) for x in args] + [f"{n}={self.content(v, s)}" for n, v in sorted(kw.items())])
        # lists
        if b is not None and b.kind == "ref" and s.heap.get(b.data, ("",))[0] == "list":
            h = s.heap[b.data]
            if name == "append" and args:
                s.heap[b.data] = ("list", h[1] + (args[0],))
                return [(k(None), s)]
            if name == "extend" and args:
                self.extend(b, args[0], s)
                return [(k(None), s)]
            if name in ("insert", "pop", "remove", "clear", "sort", "reverse"):
                s.heap[b.data] = ("list", h[1] + (Val("mut", f"{name}({ak})"),))
                return [(sy(f"{self.content(b, s)}.{name}({ak})"), s)]
            if name == "copy":
                i = self.fresh_heap(e, s)
                s.heap[i] = ("list", h[1])
                return [(Val("ref", i), s)]
        if name == "join" and b is not None and len(args) == 1:
            a = args[0]
            if a.kind == "ref" and s.heap.get(a.data, ("",))[0] == "list":
                return [(Val("cat", (Val("join", f"{b.key}|{a.data}|" + ",".join(x.key for x in s.heap[a.data][1])),)) if b.kind != "k" or b.data != "" else cat(*s.heap[a.data][1]), s)]
        if b is None and name in LISTLIKE and len(args) == 1 and not kw:
            a = args[0]
            if a.kind == "ref" and name == "list":
                i = self.fresh_heap(e, s)
                s.heap[i] = s.heap[a.data]
                return [(Val("ref", i), s)]
            if name == "list" and a.kind == "sy":
                return [(a, s)]
        if b is None and name == "list" and not args:
            i = self.fresh_heap(e, s)
            s.heap[i] = ("list", ())
            return [(Val("ref", i), s)]
        if b is None and name == "str" and len(args) == 1:
            return [(args[0], s)]
        if b is None and name == "bool" and len(args) == 1:
            return [(k(x), s2) for x, s2 in self.truth(args[0], s)]
        if b is None and name == "len" and len(args) == 1:
            a = args[0]
            if a.kind == "tup":
                return [(k(len(a.data)), s)]
            return [(sy(f"len({self.content(a, s)})"), s)]
        if name in ("deepcopy", "copy") and len(args) == 1 and args[0].kind == "ref":
            i = self.fresh_heap(e, s)
            s.heap[i] = s.heap[args[0].data]
            return [(Val("ref", i), s)]
        # nested functions and lambdas
        if b is not None and name in ("strip", "lstrip", "rstrip") and not args and b.kind == "sy" and (b.key.endswith(".strip()") or b.key.endswith(f".{name}()")):
            return [(b, s)]
        fv: Optional[Val] = None
        if isinstance(e.func, ast.Name):
            fv = self.e_Name(e.func, s, fr, f)[0][0]
        elif not isinstance(e.func, ast.Attribute):
            fv = self.ev(e.func, s, fr, f)[0][0]
        if fv is not None and fv.kind == "fn":
            fn = self.fns[fv.data]
            return self.enter(fn.node, fn.func, fn.frame, args, kw, s, None)
        targets, ext = self.p.callees(f.module, e)
        cls = self.p.constructed_class(f.module, e)
        if cls is not None and cls in self.p.classes:
            return self.construct(cls, e, args, kw, s, f)
        if len(targets) == 1 and len(self.stack) < self.max_depth and targets[0] not in self.stack and (self.inline(targets[0]) or self.helper(targets[0], f, args, s)):
            t = targets[0]
            a2 = args
            if t.cls is not None and b is not None and not t.is_static:
                a2 = [b] + args
            return self.enter(t.node, t, None, a2, kw, s, t)
        qual = targets[0].qual if targets else ext or (f"{b.key}.{name}" if b is not None else name)
        label = (f"{b.key}.{name}" if b is not None and b.kind != "ref" else name) if b is not None else name
        r = sy(f"{label}({ak})")
        s.events += (("call", qual, tuple(args) + tuple(kw.values()), e, r),)
        return [(r, s)]

    def helper(self, t: Func, f: Func, args: list[Val], s: State) -> bool:
        """a function which is given something that is being built"""
        return t.module is f.module and any(a.kind == "ref" for a in args)

    def construct(self, full: str, e: ast.Call, args: list[Val], kw: dict[str, Val], s: State, f: Func) -> list:
        i = self.fresh_heap(e, s)
        attrs: dict[str, Val] = {}
        for c in reversed(self.p.mro(full)):
            if c in self.p.classes:
                for n in self.p.classes[c].node.body:
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Constant):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            if isinstance(t, ast.Name):
                                attrs[t.id] = k(n.value.value)
        s.heap[i] = ("obj", full, attrs)
        ref = Val("ref", i)
        init = self.p.find_method(full, "__init__")
        s.events += (("new", full, tuple(args) + tuple(kw.values()), e),)
        if init is None:
            fields = [n.target.id for c in reversed(self.p.mro(full)) if c in self.p.classes for n in self.p.classes[c].node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
            a = dict(attrs)
            a.update(dict(zip(fields, args)))
            a.update(kw)
            s.heap[i] = ("obj", full, a)
        elif len(self.stack) < self.max_depth and len(init.body) <= 12 and init not in self.stack:
            return [(ref, s2) for _, s2 in self.enter(init.node, init, None, [ref] + args, kw, s, init)]
        return [(ref, s)]

    def enter(self, node: Any, g: Func, parent: Optional[int], args: list[Val], kw: dict[str, Val], s: State, label: Optional[Func]) -> list:
        if len(self.stack) >= self.max_depth + 4 or sum(1 for x in self.stack if x is g) > 2:
            return [(sy(f"{g.name}(..)"), s)]
        fid = self.fresh()
        self.parents[fid] = parent
        env: dict[str, Val] = {}
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        for nm, v in zip(names, args):
            env[nm] = v
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        env.update({n: v for n, v in kw.items() if n != "**"})
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in env:
                d = defaults.get(nm)
                env[nm] = self.ev(d, s, parent if parent is not None else fid, g)[0][0] if d is not None and (parent is not None or isinstance(d, ast.Constant)) else sy(nm)
        s.frames[fid] = env
        self.stack.append(g)
        try:
            if isinstance(node, ast.Lambda):
                outs = [("return", v, s2, node) for v, s2 in self.ev(node.body, s, fid, g)]
            else:
                outs = self.block(node.body, s, fid, g)
        finally:
            self.stack.pop()
        res = []
        for o, v, s2, nd in outs:
            s2.frames.pop(fid, None)
            if o == "raise":
                continue
            res.append((v if o == "return" else k(None), s2))
        if not res:
            return []
        return res
