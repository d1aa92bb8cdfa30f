"""Normal form of the sources: a temporary which only names the next condition or the returned value is inlined.

    flag = e            pass                      answer = e            pass
    if flag: ...   ->   if (e): ...               return answer    ->   return (e)

The text is edited so that the numbers of the lines stay the same; the syntax tree and the types are both those of the edited text.
Only when every read of the name is such an immediate use: the evaluation order is then unchanged."""
from __future__ import annotations

import ast
import re
from typing import Iterator

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


def _lists(f: ast.AST) -> Iterator[list[ast.stmt]]:
    """The statement lists of a function, nested functions and classes excluded"""
    todo: list[ast.AST] = [f]
    while todo:
        n = todo.pop()
        for name in ("body", "orelse", "finalbody"):
            b = getattr(n, name, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b
                todo += [s for s in b if not isinstance(s, FUNCS + (ast.ClassDef,))]
        for h in getattr(n, "handlers", []) or []:
            todo.append(h)
        for c in getattr(n, "cases", []) or []:
            todo.append(c)


def _use(st: ast.stmt) -> ast.AST | None:
    e: ast.AST | None = st.test if isinstance(st, ast.If) else st.value if isinstance(st, ast.Return) else None
    if isinstance(st, ast.If) and isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        e = e.operand
    return e if isinstance(e, ast.Name) else None


def _occurrences(f: ast.AST, name: str) -> Iterator[ast.Name]:
    """Occurrences of a local name of a function; nested functions which have a local variable of their own under that name are left out"""
    for n in ast.iter_child_nodes(f):
        if isinstance(n, ast.Name) and n.id == name:
            yield n
        if isinstance(n, FUNCS) and any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for b in _lists(n) for st in b if not isinstance(st, FUNCS) for x in ast.walk(st)) \
                and not any(isinstance(x, (ast.Global, ast.Nonlocal)) and name in x.names for x in ast.walk(n)):
            continue
        yield from _occurrences(n, name)


_FIELD = re.compile(r"\{\{|\}\}|\{\}|%%|%s")


def _fields(fmt: str, percent: bool) -> list[str] | None:
    """The literal parts around the plain fields of a format (None when there is another kind of field)"""
    parts, pos = [""], 0
    for m in _FIELD.finditer(fmt):
        t = m.group()
        if percent != (t[0] == "%"):
            continue
        lit = fmt[pos: m.start()]
        if any(c in lit for c in ("%" if percent else "{}")):
            return None
        parts[-1] += lit
        pos = m.end()
        if t in ("{}", "%s"):
            parts.append("")
        else:
            parts[-1] += t[0]
    lit = fmt[pos:]
    if any(c in lit for c in ("%" if percent else "{}")):
        return None
    parts[-1] += lit
    return parts


def formats(source: str) -> str:
    """ "a{}b".format(x) and "a%sb" % x   ->   f"a{x}b" """
    while True:
        found: list[tuple[ast.expr, list[str], list[ast.expr]]] = []
        for n in ast.walk(ast.parse(source)):
            fmt: ast.expr
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and not n.keywords:
                fmt, args, percent = n.func.value, n.args, False
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and (isinstance(n.right, ast.Tuple) or isinstance(n.right, (ast.Call, ast.JoinedStr))):
                fmt, args, percent = n.left, n.right.elts if isinstance(n.right, ast.Tuple) else [n.right], True
            else:
                continue
            if not (isinstance(fmt, ast.Constant) and isinstance(fmt.value, str)) or any(isinstance(a, ast.Starred) for a in args):
                continue
            if percent and not isinstance(n.right, ast.Tuple) and not (isinstance(n.right, ast.JoinedStr) or isinstance(n.right, ast.Call) and isinstance(n.right.func, ast.Name) and n.right.func.id == "str"):  # type: ignore
                continue
            parts = _fields(fmt.value, percent)
            if parts is not None and len(parts) == len(args) + 1:
                found.append((n, parts, args))
        if not found:
            return source
        n, parts, args = found[-1]
        lines = [x.encode("utf-8") for x in source.split("\n")]

        def text(x: ast.AST) -> bytes:
            a, b = x.lineno - 1, x.end_lineno - 1  # type: ignore
            if a == b:
                return lines[a][x.col_offset: x.end_col_offset]  # type: ignore
            return b"\n".join([lines[a][x.col_offset:], *lines[a + 1: b], lines[b][: x.end_col_offset]])  # type: ignore

        out = b"f'"
        for i, lit in enumerate(parts):
            out += repr(lit + '"')[1:-2].replace("{", "{{").replace("}", "}}").encode("utf-8")
            if i < len(args):
                t = text(args[i])
                out += b"{" + (b"(" + t + b")" if b"\n" not in t else b"(" + ast.unparse(args[i]).encode("utf-8") + b")") + b"}"
        out += b"'"
        assert n.end_lineno is not None
        new = b"(" + b"\n" * (n.end_lineno - n.lineno - out.count(b"\n")) + out + b")"
        a, b = n.lineno - 1, n.end_lineno - 1
        source = (b"\n".join([*lines[:a], lines[a][: n.col_offset] + new + lines[b][n.end_col_offset:], *lines[b + 1:]])).decode("utf-8")


def normalise(source: str) -> str:
    source = formats(source) if ".format(" in source or "%s" in source else source
    tree = ast.parse(source)
    lines = [x.encode("utf-8") for x in source.split("\n")]
    edits: list[tuple[tuple[int, int], tuple[int, int], bytes]] = []

    def text(n: ast.AST) -> bytes:
        a, b = n.lineno - 1, n.end_lineno - 1  # type: ignore
        if a == b:
            return lines[a][n.col_offset: n.end_col_offset]  # type: ignore
        return b"\n".join([lines[a][n.col_offset:], *lines[a + 1: b], lines[b][: n.end_col_offset]])  # type: ignore

    for f in ast.walk(tree):
        if not isinstance(f, FUNCS):
            continue
        pairs: dict[str, list[tuple[ast.stmt, ast.AST, ast.AST]]] = {}
        for body in _lists(f):
            for st, nx in zip(body, body[1:]):
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    name, value = st.targets[0].id, st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None and isinstance(nx, ast.If):
                    name, value = st.target.id, st.value
                else:
                    continue
                use = _use(nx)
                if use is None or use.id != name or isinstance(value, (ast.Name, ast.Yield, ast.YieldFrom, ast.Await)):  # type: ignore
                    continue
                assert st.end_lineno is not None
                head, tail = lines[st.lineno - 1][: st.col_offset], lines[st.end_lineno - 1][st.end_col_offset:]
                if head.strip() or tail.strip() and (not tail.strip().startswith(b"#") or b"type:" in tail) or st.end_lineno >= use.lineno:  # type: ignore
                    continue
                pairs.setdefault(name, []).append((st, value, use))
        if not pairs:
            continue
        params = {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
        others = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        for name, ps in pairs.items():
            if name in params or name in others:
                continue
            occ = list(_occurrences(f, name))
            if len(occ) != 2 * len(ps):
                continue
            for st, value, use in ps:
                # (the value may itself be the place of another edit: leave it)
                edits.append(((st.lineno - 1, st.col_offset), (st.end_lineno - 1, st.end_col_offset), b"pass"))  # type: ignore
                edits.append(((use.lineno - 1, use.col_offset), (use.end_lineno - 1, use.end_col_offset), b"(" + b"\n" * (st.end_lineno - st.lineno - text(value).count(b"\n")) + text(value) + b")"))  # type: ignore
    if not edits:
        return source
    data = "\n".join(x.decode("utf-8") for x in lines).encode("utf-8")
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x) + 1)
    for (al, ac), (bl, bc), new in sorted(edits, reverse=True):
        data = data[: starts[al] + ac] + new + data[starts[bl] + bc:]
    out = data.decode("utf-8")
    ast.parse(out)
    assert out.count("\n") == source.count("\n")
    return out
