"""Functions which the repository did not have when the rules were written (vlib/baseline_functions.json) are inlined where that is exact,
so that a helper extracted from a function is judged with the function it comes from:

    return e                      any call of the helper becomes (e)
    statements, no return         the statement  helper(...)  becomes these statements
    statements, return e last     x = helper(...)  becomes these statements and  x = e
    any body which ends           return helper(...)  becomes this body

A helper which isn't called from its own module in one of these ways stays as it is."""
from __future__ import annotations

import ast
import builtins
import json
import re
from pathlib import Path
from typing import Any, Optional

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FN + (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.ClassDef)
PATH = Path(__file__).parent / "baseline_functions.json"


def listing(tree: ast.Module) -> list[str]:
    r = [n.name for n in tree.body if isinstance(n, FN)]
    return r + [f"{c.name}.{n.name}" for c in tree.body if isinstance(c, ast.ClassDef) for n in c.body if isinstance(n, FN)]


def stored(nodes: list[ast.AST]) -> set[str]:
    """names bound in these statements, comprehensions and nested functions included"""
    r: set[str] = set()
    for x in nodes:
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                r.add(n.id)
            elif isinstance(n, ast.arg):
                r.add(n.arg)
            elif isinstance(n, FN + (ast.ClassDef,)):
                r.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                r.add(n.name)
            elif isinstance(n, ast.alias):
                r.add((n.asname or n.name).split(".")[0])
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                r.add(n.name)
    return r


def own(stmts: list[ast.stmt]) -> list[ast.AST]:
    """nodes of the statements, nested functions excluded"""
    r: list[ast.AST] = []
    todo: list[ast.AST] = list(stmts)
    while todo:
        n = todo.pop()
        r.append(n)
        if not isinstance(n, FN + (ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))
    return r


def ends(body: list[ast.stmt]) -> bool:
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return bool(s.orelse) and ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.With):
        return ends(s.body)
    if isinstance(s, ast.Try):
        return bool(s.finalbody) and ends(s.finalbody) or (ends(s.orelse) if s.orelse else ends(s.body)) and all(ends(h.body) for h in s.handlers)
    return False


class Text:
    def __init__(self, source: str):
        self.lines = [x.encode("utf-8") for x in source.split("\n")]

    def get(self, n: Any, edits: list[tuple[Any, bytes]] = []) -> bytes:
        """text of a node, nodes inside it replaced"""
        a, b = n.lineno - 1, n.end_lineno - 1
        starts = {}
        pos = 0
        for i in range(a, b + 1):
            starts[i] = pos
            pos += len(self.lines[i]) + 1
        data = b"\n".join(self.lines[a: b + 1])
        end = starts[b] + n.end_col_offset
        cut = data[:end]
        for x, new in sorted(edits, key=lambda e: (e[0].lineno, e[0].col_offset), reverse=True):
            i, j = starts[x.lineno - 1] + x.col_offset, starts[x.end_lineno - 1] + x.end_col_offset
            cut = cut[:i] + new + cut[j:]
        return cut[n.col_offset:]


class Helper:
    def __init__(self, cls: Optional[str], node: Any):
        self.cls, self.node = cls, node
        self.body: list[ast.stmt] = [s for s in node.body if not isinstance(s, ast.Pass) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        self.static = any(ast.unparse(d) == "staticmethod" for d in node.decorator_list)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.self_name = self.params.pop(0) if cls and not self.static and self.params else None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.defaults: dict[str, ast.expr] = dict(zip(reversed([x.arg for x in a.posonlyargs + a.args]), reversed(a.defaults)))
        self.defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        nodes = own(self.body)
        self.returns = [n for n in nodes if isinstance(n, ast.Return)]
        self.ok = bool(self.body) and isinstance(node, ast.FunctionDef) and not a.vararg and not a.kwarg and all(ast.unparse(d) == "staticmethod" for d in node.decorator_list) and (not cls or self.static or self.self_name == "self") \
            and not any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)) for n in nodes) and not any(isinstance(n, ast.Name) and n.id in ("super", "__class__", "locals") for s in self.body for n in ast.walk(s)) \
            and len(nodes) < 3000
        self.rigid = any(isinstance(n, (ast.Constant, ast.JoinedStr)) and n.end_lineno != n.lineno for s in self.body for n in ast.walk(s))
        self.expr = self.body[0].value if len(self.body) == 1 and isinstance(self.body[0], ast.Return) else None
        if isinstance(self.expr, ast.Call) and isinstance(self.expr.func, ast.Name) and self.expr.func.id == "bool" and len(self.expr.args) == 1 and not self.expr.keywords and isinstance(self.expr.args[0], (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            self.expr = self.expr.args[0]

    def bind(self, c: ast.Call) -> Optional[dict[str, ast.expr]]:
        if any(isinstance(x, ast.Starred) for x in c.args) or any(k.arg is None for k in c.keywords) or len(c.args) > len(self.params):
            return None
        r = dict(zip(self.params, c.args))
        for k in c.keywords:
            if k.arg in r or k.arg not in self.params + self.kwonly:
                return None
            r[k.arg] = k.value  # type: ignore
        for n in self.params + self.kwonly:
            if n not in r:
                d = self.defaults.get(n)
                if not isinstance(d, ast.Constant):
                    return None
                r[n] = d
        return r


def related(tree: ast.Module, h: Helper) -> bool:
    """another class of the module, above or below the class of the helper, has a method of that name"""
    classes = {c.name: c for c in tree.body if isinstance(c, ast.ClassDef)}

    def above(n: str) -> set[str]:
        r: set[str] = set()
        todo = [n]
        while todo:
            c = classes.get(todo.pop())
            for b in c.bases if c is not None else []:
                x = ast.unparse(b).split("[")[0].split(".")[-1]
                if x not in r:
                    r.add(x)
                    todo.append(x)
        return r

    for n, c in classes.items():
        if n != h.cls and any(isinstance(m, FN) and m.name == h.node.name for m in c.body) and (n in above(h.cls or "") or h.cls in above(n)):
            return True
    return False


def simple(e: ast.expr) -> bool:
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)


def calls_of(tree: ast.Module, h: Helper, alone: bool) -> Optional[list[tuple[Any, ast.Call, Any, list[Any]]]]:
    """(statement, call, function, enclosing nodes) of each use of the helper, None when one use isn't a plain call"""
    out: list[tuple[Any, ast.Call, Any, list[Any]]] = []
    good = True

    def visit(n: ast.AST, chain: list[ast.AST]) -> None:
        nonlocal good
        hit = False
        if isinstance(n, ast.Name) and n.id == h.node.name and h.cls is None:
            hit = True
        if isinstance(n, ast.Attribute) and n.attr == h.node.name and h.cls is not None:
            hit = True
        if hit:
            par = chain[-1] if chain else None
            fns = [x for x in chain if isinstance(x, FN)]
            classes = [x for x in chain if isinstance(x, ast.ClassDef)]
            st = next((x for x in reversed(chain) if isinstance(x, ast.stmt)), None)
            if h.cls is not None and classes and classes[0].name != h.cls and isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and any(isinstance(m, FN) and m.name == n.attr for m in classes[0].body):
                hit = False  # (the method of another class)
        if hit:
            fine = isinstance(par, ast.Call) and par.func is n and fns and h.node not in chain and st is not None and not isinstance(st, FN + (ast.ClassDef,))
            if h.cls is not None and fine:
                assert isinstance(n, ast.Attribute)
                base = n.value.id if isinstance(n.value, ast.Name) else ""
                fine = bool(classes) and classes[0].name == h.cls and (base == "self" or h.static and base in (h.cls, "cls"))
            elif fine and any(h.node.name in stored(f.body) | {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)} for f in fns):
                fine = False
            if fine:
                out.append((st, par, fns[-1], list(chain)))  # type: ignore
            else:
                good = False
        for c in ast.iter_child_nodes(n):
            visit(c, chain + [n])

    visit(tree, [])
    return out if good and out else None


def step(source: str, known: set[str]) -> Optional[str]:
    tree = ast.parse(source)
    new: list[Helper] = []
    for n in tree.body:
        if isinstance(n, FN) and n.name not in known:
            new.append(Helper(None, n))
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, FN):
                    if f"{n.name}.{m.name}" not in known:
                        new.append(Helper(n.name, m))
    text = Text(source)
    module_names = stored([s for s in tree.body if not isinstance(s, FN + (ast.ClassDef,))]) | {s.name for s in tree.body if isinstance(s, FN + (ast.ClassDef,))} | set(dir(builtins))
    for h in new:
        if not h.ok or h.cls is not None and related(tree, h) or h.node.name.startswith("__") and (h.cls is not None or h.node.name.endswith("__")):
            continue
        uses = calls_of(tree, h, True)
        if uses is None or len(uses) > 6:
            continue
        edits: list[tuple[Any, bytes]] = []
        for st, call, f, chain in uses:
            e = inline_one(h, st, call, f, chain, text, module_names)
            if e is None:
                break
            edits.append(e)
        else:
            spans = sorted(((e[0].lineno, e[0].col_offset), (e[0].end_lineno, e[0].end_col_offset)) for e in edits)
            if any(b[0] < a[1] for a, b in zip(spans, spans[1:])):
                edits = edits[:1]  # (one call inside another: one at a time)
                gone = False
            else:
                gone = True
            lines = list(text.lines)
            todo = [((e[0].lineno, e[0].col_offset), (e[0].end_lineno, e[0].end_col_offset), e[1]) for e in edits]
            if gone:
                first = min([h.node.lineno] + [d.lineno for d in h.node.decorator_list])
                owner = next((c for c in tree.body if isinstance(c, ast.ClassDef) and h.node in c.body), None)
                todo.append(((first, 0), (h.node.end_lineno, len(lines[h.node.end_lineno - 1])), b"    pass" if owner is not None and len(owner.body) == 1 else b""))
            data = b"\n".join(lines)
            starts = [0]
            for x in lines:
                starts.append(starts[-1] + len(x) + 1)
            for (al, ac), (bl, bc), t in sorted(todo, reverse=True):
                data = data[: starts[al - 1] + ac] + t + data[starts[bl - 1] + bc:]
            out = data.decode("utf-8")
            ast.parse(out)
            return out
    return None


def shift(t: bytes, delta: int) -> bytes:
    out = []
    for line in t.split(b"\n"):
        if delta >= 0:
            out.append(b" " * delta + line if line.strip() else line)
        else:
            out.append(line[min(-delta, len(line) - len(line.lstrip())):])
    return b"\n".join(out)


def inline_one(h: Helper, st: Any, call: ast.Call, f: Any, chain: list[Any], text: Text, module_names: set[str]) -> Optional[tuple[Any, bytes]]:
    args = h.bind(call)
    if args is None:
        return None
    around: set[str] = set()
    for x in chain:
        if isinstance(x, FN + (ast.Lambda,)):
            around |= {a.arg for a in ast.walk(x.args) if isinstance(a, ast.arg)}
            around |= stored(x.body) if isinstance(x.body, list) else set()
    used_in_args = {n.id for a in args.values() for n in ast.walk(a) if isinstance(n, ast.Name)}
    params = set(h.params) | set(h.kwonly)
    if h.expr is not None:
        bound = stored([h.expr])
        free = {n.id for n in ast.walk(h.expr) if isinstance(n, ast.Name)} - bound - params - ({"self"} if h.self_name else set())
        if bound & (used_in_args | params) or free & around:
            return None
        subst = [(n, args[n.id]) for n in ast.walk(h.expr) if isinstance(n, ast.Name) and n.id in params]
        times: dict[str, int] = {}
        for n, _ in subst:
            times[n.id] = times.get(n.id, 0) + 1
        if any(not simple(args[k]) and v > 1 for k, v in times.items()) or any(not simple(args[k]) and k not in times for k in args):
            return None
        if h.self_name and not (isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id == "self"):
            return None
        e = text.get(h.expr, [(n, b"(" + text.get(a) + b")" if not simple(a) else text.get(a)) for n, a in subst])
        return call, b"(" + e + b")"
    # a statement
    last = h.body[-1]
    inner = own(h.body)
    tail = b""
    if isinstance(st, ast.Expr) and st.value is call and not h.returns:
        body = h.body
    elif isinstance(st, ast.Return) and st.value is call:
        body = h.body
        if not ends(body):
            tail = b"return None"
    elif isinstance(st, ast.Expr) and st.value is call and st is f.body[-1] and all(r.value is None or isinstance(r.value, ast.Constant) and r.value.value is None for r in h.returns) and not any(isinstance(x, (ast.For, ast.While, ast.If, ast.With, ast.Try)) for x in chain):
        body = h.body
    elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.Return, ast.AugAssign)) and len(h.returns) == 1 and h.returns[0] is last and last.value is not None and (st.value is call or isinstance(st, ast.Return)):  # type: ignore
        if st.value is not call:
            return None
        body = h.body[:-1]
    else:
        return None
    if text.lines[st.lineno - 1][: st.col_offset].strip() or not body and not tail:
        return None
    locals_ = stored(list(body))
    names = {n.id for s in h.body for n in ast.walk(s) if isinstance(n, ast.Name)}
    nested = any(isinstance(n, FN + (ast.Lambda,)) for s in h.body for n in ast.walk(s))
    free = names - locals_ - params - ({"self"} if h.self_name else set())
    if free & around:
        return None
    caller_names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)} | around
    rename: dict[str, bytes] = {}
    pre: list[bytes] = []
    for p, a in args.items():
        if isinstance(a, ast.Name) and p not in locals_:
            rename[p] = a.id.encode()
        elif simple(a) and p not in locals_ and not isinstance(a, ast.Attribute):
            rename[p] = text.get(a)
        elif isinstance(a, ast.Name) and a.id == p and isinstance(st, ast.Return):
            pass
        else:
            nm = p if p not in caller_names else p + "_of_" + h.node.name.strip("_")
            rename[p] = nm.encode()
            pre.append(nm.encode() + b" = " + text.get(a))
    for v in locals_ - params:
        # (the same temporaries may be used by the caller: they then need another name, except after a return)
        if v in caller_names and not (isinstance(st, ast.Return)):
            rename[v] = (v + "_of_" + h.node.name.strip("_")).encode()
    if nested and any(k.encode() != v for k, v in rename.items()):
        return None
    if any(isinstance(n, (ast.ExceptHandler, ast.alias)) and (getattr(n, "name", None) in rename and isinstance(n, ast.ExceptHandler) or isinstance(n, ast.alias) and (n.asname or n.name).split(".")[0] in rename) for s in body for n in ast.walk(s)):
        return None
    if any(v.decode() in locals_ and v.decode() not in rename for v in rename.values()):
        return None
    if h.rigid and st.col_offset != h.body[0].col_offset:
        return None
    pad = b" " * st.col_offset

    def renamed(n: Any) -> bytes:
        return text.get(n, [(x, rename[x.id]) for x in ast.walk(n) if isinstance(x, ast.Name) and x.id in rename])

    chunks: list[bytes] = [b" " * st.col_offset + p for p in pre]
    for s in body:
        # (the comment at the end of the line, "type: ignore", is kept)
        rest = text.lines[s.end_lineno - 1][s.end_col_offset:]  # type: ignore
        t = b" " * s.col_offset + renamed(s) + (rest if rest.strip().startswith(b"#") else b"")
        if h.rigid:
            chunks.append(t)
            continue
        chunks.append(shift(t, st.col_offset - s.col_offset))
    if tail:
        chunks.append(pad + tail)
    if body is not h.body:
        whole = text.get(st, [(call, b"(" + renamed(last.value) + b")")])  # type: ignore
        chunks.append(pad + whole)
    return st, b"\n".join(chunks)[st.col_offset:]


_baseline: Optional[dict[str, list[str]]] = None


def inline(source: str, rel: str) -> str:
    global _baseline
    if _baseline is None:
        _baseline = json.loads(PATH.read_text()) if PATH.exists() else {}
    if rel not in _baseline:
        return source
    known = set(_baseline[rel])
    if not set(listing(ast.parse(source))) - known:
        return source
    for _ in range(60):
        try:
            nxt = step(source, known)
        except Exception:  # (not in a form which can be inlined)
            return source
        if nxt is None:
            return source
        source = nxt
    return source
