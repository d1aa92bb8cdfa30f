#!/usr/bin/env python3
"""extract.py KIND OUT - copy of /repo (src only) where helpers are extracted from the functions, mechanically (behaviour unchanged).
   pred: `if <and/or/comparison>:` -> `if self._f_pred_n(...):`     body: the body of a branch or of a loop -> a call     tail: the last statements of a function -> a call
Used by hand to see which checks raise alarms on such edits."""
import ast, pathlib, shutil, sys, textwrap

kind, out = sys.argv[1], pathlib.Path(sys.argv[2])
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
LAM = (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def names(nodes, ctx):
    return {n.id for x in nodes for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)}


def bound(f):
    a = f.args
    r = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            r.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            r.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            r |= {(x.asname or x.name).split(".")[0] for x in n.names}
    return r


def narrowing(e):
    return any(isinstance(n, (ast.Constant,)) and n.value is None for n in ast.walk(e)) or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "hasattr") for n in ast.walk(e))


def multiline(nodes):
    return any(isinstance(n, (ast.Constant, ast.JoinedStr)) and n.end_lineno != n.lineno for x in nodes for n in ast.walk(x))


sys.path.insert(0, str(pathlib.Path(__file__).parent.parent))
from vlib.project import Project  # noqa: E402
P = Project()
BYREL = {str(m.path): m for m in P.modules.values()} if isinstance(P.modules, dict) else {str(m.path): m for m in P.modules}


def type_of(path, n, wanted):
    m = BYREL.get(str(path))
    if m is None:
        return "Any"
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Name) and x.id == n.id and (x.lineno, x.col_offset) == (n.lineno, n.col_offset):
            t = P.mtype(m, x)
            if t is None:
                return "Any"
            t = str(t).replace("builtins.", "").replace("?", "").replace("*", "")
            if any(c in t for c in "<(=`") or "Literal" in t or t in ("None", "Any") or "typing." in t:
                return "str" if t.startswith("Literal['") else "Any"
            import re
            for d in re.findall(r"[A-Za-z_][\w.]*\.[A-Za-z_]\w*", t):
                md = d.rsplit(".", 1)[0]
                if md.split(".")[0] not in ("litgen", "srcmlcpp", "codemanip", "re", "xml"):
                    return "Any"
                wanted.add(md)
            return "'" + t + "'"
    return "Any"


def transform(src, path=None):
    tree = ast.parse(src)
    wanted = set()
    lines = src.split("\n")
    edits = []  # (first, last, new lines) 1-based, inclusive
    funcs = [(None, n) for n in tree.body if isinstance(n, FN)] + [(c, n) for c in tree.body if isinstance(c, ast.ClassDef) for n in c.body if isinstance(n, FN)]
    done = 0
    for cls, f in funcs:
        if any(isinstance(n, FN + (ast.Lambda, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.ClassDef, ast.NamedExpr, ast.Delete)) for n in ast.walk(f) if n is not f):
            continue
        if any(isinstance(n, ast.Name) and n.id == "super" for n in ast.walk(f)) or (cls is not None and (f.decorator_list and ast.unparse(f.decorator_list[0]) != "property" or not f.args.args or f.args.args[0].arg != "self")):
            continue
        if cls is None and f.decorator_list:
            continue
        loc = bound(f)
        ann = {a.arg: ast.unparse(a.annotation) for a in f.args.args + f.args.kwonlyargs if a.annotation is not None}
        after = f.end_lineno
        base = "_" + f.name.strip("_")
        ind = " " * f.col_offset
        extra = []
        k = 0
        if kind in ("split", "aug", "demorgan", "tern", "len"):
            taken = []
            for n in ast.walk(f):
                ln = lines[n.lineno - 1] if hasattr(n, "lineno") else ""
                if not isinstance(n, ast.stmt) or ln[: n.col_offset].strip() or any(a <= n.end_lineno and n.lineno <= z for a, z in taken):
                    continue
                pad = " " * n.col_offset
                if kind == "split" and isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and ln.strip().startswith("if ") and not multiline([n]):
                    body = textwrap.indent("\n".join(lines[n.body[0].lineno - 1: n.end_lineno]), "    ").split("\n")
                    rest_ = n.test.values[1:]
                    new = [pad + f"if {ast.unparse(n.test.values[0])}:", pad + "    if " + " and ".join("(" + ast.unparse(v) + ")" for v in rest_) + ":"] + body
                elif kind == "demorgan" and isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and n.test.lineno == n.test.end_lineno == n.body[0].lineno - 1 and ln.strip().startswith("if ") and not narrowing(n.test):
                    op = " or " if isinstance(n.test.op, ast.And) else " and "
                    taken.append((n.lineno, n.lineno))
                    edits.append((n.lineno, n.lineno, [pad + "if not (" + op.join("not (" + ast.unparse(v) + ")" for v in n.test.values) + "):"]))
                    done += 1
                    continue
                elif kind == "len" and isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and ast.unparse(n.test).startswith("len(") and len(n.test.ops) == 1 and isinstance(n.test.comparators[0], ast.Constant) and n.test.comparators[0].value == 0 and n.test.lineno == n.test.end_lineno == n.body[0].lineno - 1 and ln.strip().startswith("if "):
                    new_ = ast.unparse(n.test.left.args[0])
                    if isinstance(n.test.ops[0], ast.Eq):
                        new_ = "not " + new_
                    elif not isinstance(n.test.ops[0], (ast.Gt, ast.NotEq)):
                        continue
                    taken.append((n.lineno, n.lineno))
                    edits.append((n.lineno, n.lineno, [pad + "if " + new_ + ":"]))
                    done += 1
                    continue
                elif kind == "aug" and isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name) and n.lineno == n.end_lineno and "ignore" not in ln:
                    v = n.value
                    if isinstance(v, ast.List) and len(v.elts) == 1 and not isinstance(v.elts[0], ast.Starred):
                        new = [pad + f"{n.target.id}.append({ast.unparse(v.elts[0])})"]
                    elif isinstance(v, (ast.Constant, ast.JoinedStr)):
                        new = [pad + f"{n.target.id} = {n.target.id} + {ast.unparse(v)}"]
                    else:
                        continue
                elif kind == "tern" and isinstance(n, ast.If) and len(n.body) == len(n.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (n.body[0], n.orelse[0])) and n.body[0].targets[0].id == n.orelse[0].targets[0].id and ln.strip().startswith("if ") and "ignore" not in "".join(lines[n.lineno - 1: n.end_lineno]):
                    new = [pad + f"{n.body[0].targets[0].id} = {ast.unparse(n.body[0].value)} if {ast.unparse(n.test)} else {ast.unparse(n.orelse[0].value)}"]
                else:
                    continue
                taken.append((n.lineno, n.end_lineno))
                edits.append((n.lineno, n.end_lineno, new))
                done += 1
            continue
        if kind in ("compr", "swap", "index"):
            for n in ast.walk(f):
                for b in [getattr(n, x, None) for x in ("body", "orelse", "finalbody")]:
                    if not isinstance(b, list):
                        continue
                    used = -1
                    for i, (s1, s2) in enumerate(zip(b, b[1:])):
                        L1 = lines[s1.lineno - 1][: s1.col_offset].strip() if isinstance(s1, ast.stmt) else "x"
                        if L1 or i <= used:
                            continue
                        if kind == "compr":
                            if not (isinstance(s1, (ast.Assign, ast.AnnAssign)) and isinstance(s1.value, ast.List) and not s1.value.elts and isinstance(s2, ast.For) and not s2.orelse and len(s2.body) == 1):
                                continue
                            t = s1.target if isinstance(s1, ast.AnnAssign) else s1.targets[0]
                            x = s2.body[0]
                            c = ""
                            if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                                c, x = " if " + ast.unparse(x.test), x.body[0]
                            if not (isinstance(t, ast.Name) and isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and ast.unparse(x.value.func) == t.id + ".append" and not names([s2.iter, x.value.args[0]], ast.Load) & {t.id}):
                                continue
                            head = lines[s1.lineno - 1][: s1.value.col_offset]
                            edits.append((s1.lineno, s2.end_lineno, [head + f"[{ast.unparse(x.value.args[0])} for {ast.unparse(s2.target)} in {ast.unparse(s2.iter)}{c}]"]))
                            done += 1
                            used = i + 1
                        elif kind == "swap":
                            def plain(s):
                                return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.lineno == s.end_lineno and not any(isinstance(y, (ast.Call, ast.Subscript)) for y in ast.walk(s.value))
                            def quiet(s):
                                return plain(s) or isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.lineno == s.end_lineno
                            if plain(s1) and quiet(s2) or quiet(s1) and plain(s2):
                                n1, n2 = s1.targets[0].id, s2.targets[0].id
                                attrs = any(isinstance(y, ast.Attribute) for s in (s1, s2) for y in ast.walk(s.value)) and any(isinstance(y, ast.Call) for s in (s1, s2) for y in ast.walk(s.value))
                                if n1 != n2 and n1 not in names([s2.value], ast.Load) and n2 not in names([s1.value], ast.Load) and not attrs and s2.lineno == s1.lineno + 1:
                                    edits.append((s1.lineno, s2.lineno, [lines[s2.lineno - 1], lines[s1.lineno - 1]]))
                                    done += 1
                                    used = i + 1
                    if kind == "index":
                        for s in b:
                            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, (ast.Name, ast.Attribute)) and s.iter.end_lineno == s.lineno and s.body[0].lineno > s.lineno:
                                k += 1
                                pad = " " * s.col_offset
                                u = s.iter if isinstance(s.iter, ast.Name) else s.iter.value
                                while isinstance(u, ast.Attribute):
                                    u = u.value
                                m_ = BYREL.get(str(path))
                                ty = ""
                                for y in ast.walk(m_.tree) if m_ is not None else []:
                                    if type(y) is type(s.iter) and (y.lineno, y.col_offset, y.end_col_offset) == (s.iter.lineno, s.iter.col_offset, s.iter.end_col_offset):
                                        ty = str(P.mtype(m_, y))
                                if "list[" not in ty[:16]:
                                    continue
                                edits.append((s.lineno, s.lineno, [pad + f"for idx_{k}_ in range(len({ast.unparse(s.iter)})):", pad + "    " + f"{s.target.id} = {ast.unparse(s.iter)}[idx_{k}_]"]))
                                done += 1
            continue

        def sig(nm, ps, ret, nodes=()):
            for p_ in ps:
                if p_ not in ann:
                    u = next((x for s_ in nodes for x in ast.walk(s_) if isinstance(x, ast.Name) and x.id == p_ and isinstance(x.ctx, ast.Load)), None)
                    ann[p_] = type_of(path, u, wanted) if u is not None else "Any"
            return ind + f"def {nm}({', '.join((['self'] if cls is not None else []) + [p + (': ' + ann[p] if p in ann else ': Any') for p in ps])}) -> {ret}:"

        def call(nm, ps):
            return ("self." if cls is not None else "") + nm + "(" + ", ".join(ps) + ")"

        if kind == "pred":
            for n in ast.walk(f):
                if isinstance(n, ast.If) and n.test.lineno == n.test.end_lineno and not narrowing(n.test) and isinstance(n.test, (ast.BoolOp, ast.Compare)) and lines[n.lineno - 1].lstrip().startswith("if "):
                    ps = sorted((names([n.test], ast.Load) & loc) - {"self"} - {x.id for g in ast.walk(n.test) if isinstance(g, ast.comprehension) for x in ast.walk(g.target) if isinstance(x, ast.Name)})
                    k += 1
                    nm = f"{base}_pred_{k}"
                    ln = lines[n.lineno - 1].encode()
                    t = n.test
                    edits.append((n.lineno, n.lineno, [(ln[: t.col_offset] + call(nm, ps).encode() + ln[t.end_col_offset:]).decode()]))
                    extra += ["", sig(nm, ps, "bool", [n.test]), ind + "    return bool(" + ln[t.col_offset: t.end_col_offset].decode() + ")"]
        elif kind == "body":
            taken = []
            for n in ast.walk(f):
                for b in ([n.body, n.orelse] if isinstance(n, (ast.If, ast.For)) else []):
                    if not b or (isinstance(n, ast.If) and b is n.orelse and isinstance(b[0], ast.If)) or any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Import, ast.ImportFrom, ast.Try)) for s in b for x in ast.walk(s)):
                        continue
                    a0, a1 = b[0].lineno, b[-1].end_lineno
                    if any(x <= a1 and a0 <= y for x, y in taken) or multiline(b) or lines[a0 - 1][: b[0].col_offset].strip():
                        continue
                    st = names(b, ast.Store)
                    inner = {id(x) for s in b for x in ast.walk(s)}
                    if any(isinstance(x, ast.Name) and x.id in st and id(x) not in inner for x in ast.walk(f)):
                        continue
                    if all(isinstance(s, (ast.Pass, ast.Raise)) for s in b):
                        continue
                    # (a local first read and then assigned is not a local of the body: it is seen by the test above)
                    ps = sorted((names(b, ast.Load) & loc) - {"self"} - st)
                    k += 1
                    nm = f"{base}_body_{k}"
                    taken.append((a0, a1))
                    pad = " " * b[0].col_offset
                    body = textwrap.indent(textwrap.dedent("\n".join(lines[a0 - 1: a1])), ind + "    ").split("\n")
                    edits.append((a0, a1, [pad + call(nm, ps)]))
                    extra += ["", sig(nm, ps, "None", b)] + body
        elif kind == "tail":
            b = f.body
            for i in range(len(b) - 2, 0, -1):
                rest = b[i:]
                if i < len(b) // 2:
                    break
                if multiline(rest) or any(isinstance(x, (ast.Import, ast.ImportFrom)) for s in rest for x in ast.walk(s)):
                    continue
                if i > max(1, len(b) // 2):
                    continue
                st = names(rest, ast.Store)
                ps = sorted(((names(rest, ast.Load) & loc) | {s.target.id for s in ast.walk(ast.Module(rest, [])) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name)}) - {"self"} & loc)
                ps = [p for p in ps if p != "self"]
                before = names(b[:i], ast.Store) | {a.arg for a in f.args.args + f.args.kwonlyargs} | {y.arg for y in (f.args.vararg, f.args.kwarg) if y}
                ps = [p for p in ps if p in before]
                # definitely assigned before: only simple top-level assignments
                top = {t.id for s in b[:i] if isinstance(s, (ast.Assign, ast.AnnAssign)) and getattr(s, "value", None) is not None for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(t, ast.Name)} | {a.arg for a in f.args.args + f.args.kwonlyargs}
                if any(p not in top for p in ps):
                    continue
                nm = f"{base}_tail"
                ret = ast.unparse(f.returns) if f.returns is not None else "None"
                body = textwrap.indent(textwrap.dedent("\n".join(lines[rest[0].lineno - 1: rest[-1].end_lineno])), ind + "    ").split("\n")
                edits.append((rest[0].lineno, rest[-1].end_lineno, [" " * b[0].col_offset + ("return " if ret != "None" else "") + call(nm, ps)]))
                extra += ["", sig(nm, ps, ret, rest)] + body
                break
        if extra:
            done += 1
            edits.append((after + 0.5, after, extra))
    if not edits:
        return src, 0
    for a, z, new in sorted(edits, key=lambda e: -e[0]):
        if a == int(a):
            lines[a - 1: z] = new
        else:
            lines[z:z] = new
    res = "\n".join(lines)
    if True:
        t = ast.parse(res)
        at = next(s.lineno for s in t.body if not (isinstance(s, ast.Expr) or isinstance(s, ast.ImportFrom) and s.module == "__future__"))
        rl = res.split("\n")
        rl[at - 1: at - 1] = ["from typing import Any"] + (["from typing import TYPE_CHECKING", "if TYPE_CHECKING:"] + ["    import " + w for w in sorted(wanted)] if wanted else [])
        res = "\n".join(rl)
    ast.parse(res)
    return res, done


if out.exists():
    shutil.rmtree(out)
out.mkdir()
shutil.copytree("/repo/src", out / "src", ignore=shutil.ignore_patterns("__pycache__"))
total = 0
for p in sorted((out / "src").rglob("*.py")):
    rel = str(p.relative_to(out))
    if "/tests/" in rel or p.name.startswith("test") or p.name.endswith("_test.py") or "bindings" in rel and "validate" not in rel:
        continue
    new, n = transform(p.read_text(), pathlib.Path('/repo') / rel)
    total += n
    p.write_text(new)
print(kind, total)
