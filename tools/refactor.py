#!/usr/bin/env python3-vt
"""refactor.py KIND OUT: a copy of /repo's sources in OUT, refactored all over (the behaviour stays the same).
Used to look for false alarms: VERIF_REPO=OUT python3-vt check.py Cxx"""
import pathlib
import shutil
import sys

import libcst as cst
import libcst.matchers as m

KIND, OUT = sys.argv[1], pathlib.Path(sys.argv[2])


def is_exit(st):
    return isinstance(st, cst.SimpleStatementLine) and isinstance(st.body[-1], (cst.Return, cst.Continue, cst.Break, cst.Raise))


def narrowing(e):
    return bool(m.findall(e, m.OneOf(m.Is(), m.IsNot(), m.Call(func=m.Name("isinstance")), m.Call(func=m.Name("hasattr")), m.NamedExpr(), m.Await(), m.Yield()))) or isinstance(e, (cst.Name, cst.Attribute)) \
        or bool(m.findall(e, m.BooleanOperation()))


def neg(e):
    return cst.UnaryOperation(operator=cst.Not(), expression=e.with_changes(lpar=[cst.LeftParen()], rpar=[cst.RightParen()]))


class Invert(cst.CSTTransformer):
    """if c: A else: B  ->  if not (c): B else: A"""
    def leave_If(self, o, n):
        if isinstance(n.orelse, cst.Else) and not n.orelse.leading_lines:
            return n.with_changes(test=neg(n.test), whitespace_before_test=cst.SimpleWhitespace(" "), body=n.orelse.body, orelse=n.orelse.with_changes(body=n.body))
        return n


class ReturnVar(cst.CSTTransformer):
    """return e -> answer = e; return answer"""
    def __init__(self):
        self.lam = 0

    def leave_SimpleStatementLine(self, o, n):
        b = n.body[-1]
        if len(n.body) == 1 and isinstance(b, cst.Return) and b.value is not None and not isinstance(b.value, (cst.Name, cst.SimpleString)) and not m.matches(b.value, m.Name("None")):
            return cst.FlattenSentinel([
                n.with_changes(body=[cst.Assign(targets=[cst.AssignTarget(cst.Name("the_answer"))], value=b.value)]),
                cst.SimpleStatementLine(body=[cst.Return(cst.Name("the_answer"))])])
        return n


class Guard(cst.CSTTransformer):
    """for ...: ...; if c: BODY   ->  for ...: ...; if not c: continue; BODY"""
    def leave_For(self, o, n):
        body = list(n.body.body) if isinstance(n.body, cst.IndentedBlock) else []
        if body and isinstance(body[-1], cst.If) and body[-1].orelse is None and isinstance(body[-1].body, cst.IndentedBlock):
            i = body[-1]
            g = i.with_changes(test=neg(i.test), whitespace_before_test=cst.SimpleWhitespace(" "), body=cst.IndentedBlock(body=[cst.SimpleStatementLine(body=[cst.Continue()])]))
            return n.with_changes(body=n.body.with_changes(body=body[:-1] + [g] + list(i.body.body)))
        return n


class NoElse(cst.CSTTransformer):
    """if c: ...return  else: B   ->  if c: ...return; B"""
    def flat(self, body):
        out = []
        for st in body:
            if isinstance(st, cst.If) and isinstance(st.orelse, cst.Else) and isinstance(st.body, cst.IndentedBlock) and isinstance(st.orelse.body, cst.IndentedBlock) and is_exit(st.body.body[-1]):
                out.append(st.with_changes(orelse=None))
                out += list(st.orelse.body.body)
            else:
                out.append(st)
        return out

    def leave_IndentedBlock(self, o, n):
        return n.with_changes(body=self.flat(n.body))


class CondVar(cst.CSTTransformer):
    """if c: -> flag = c; if flag:  (when the condition narrows no type)"""
    def leave_IndentedBlock(self, o, n):
        out = []
        for st in n.body:
            if isinstance(st, cst.If) and not narrowing(st.test):
                out.append(cst.SimpleStatementLine(leading_lines=st.leading_lines, body=[cst.Assign(targets=[cst.AssignTarget(cst.Name("the_condition"))], value=st.test)]))
                out.append(st.with_changes(test=cst.Name("the_condition"), leading_lines=[], whitespace_before_test=cst.SimpleWhitespace(" ")))
            else:
                out.append(st)
        return n.with_changes(body=out)


class Impl(cst.CSTTransformer):
    """def f(a): BODY -> def _f_impl(a): BODY; def f(a): return _f_impl(a)"""
    def __init__(self):
        self.cls, self.depth = [], 0

    def visit_ClassDef(self, n):
        self.cls.append(n.name.value)

    def leave_ClassDef(self, o, n):
        self.cls.pop()
        return n

    def visit_FunctionDef(self, n):
        self.depth += 1

    def leave_FunctionDef(self, o, n):
        self.depth -= 1
        if self.depth or n.decorators or n.name.value.startswith("__") or len(self.cls) > 1:
            return n
        if m.findall(n.body, m.OneOf(m.Yield(), m.Call(func=m.Name("super")))) or n.params.star_kwarg or isinstance(n.params.star_arg, cst.Param) or n.params.posonly_params:
            return n
        if isinstance(n.body, cst.SimpleStatementSuite) or not any(not m.matches(s, m.SimpleStatementLine(body=[m.OneOf(m.Expr(m.SimpleString()), m.Pass(), m.Raise())])) for s in n.body.body):
            return n
        name = n.name.value
        impl = ("_" + self.cls[-1] if self.cls else "_") + "_" + name.strip("_") + "_impl"
        ps = [p.name.value for p in n.params.params]
        ks = [p.name.value for p in n.params.kwonly_params]
        if self.cls and ps[:1] != ["self"]:
            return n
        fn = cst.Attribute(cst.Name("self"), cst.Name(impl)) if self.cls else cst.Name(impl)
        args = [cst.Arg(cst.Name(p)) for p in (ps[1:] if self.cls else ps)] + [cst.Arg(cst.Name(k), keyword=cst.Name(k), equal=cst.AssignEqual(cst.SimpleWhitespace(""), cst.SimpleWhitespace(""))) for k in ks]
        call = cst.Call(fn, args)
        none = n.returns is not None and m.matches(n.returns.annotation, m.Name("None"))
        st = cst.SimpleStatementLine(body=[cst.Expr(call) if none else cst.Return(call)])
        return cst.FlattenSentinel([n.with_changes(name=cst.Name(impl)), n.with_changes(body=cst.IndentedBlock(body=[st]), leading_lines=[cst.EmptyLine()])])


class Rename(cst.CSTTransformer):
    """every local variable of a function without nested functions gets another name"""
    def __init__(self):
        self.stack = []

    def visit_FunctionDef(self, n):
        names = set()
        if not m.findall(n.body, m.OneOf(m.FunctionDef(), m.Lambda(), m.Global(), m.Nonlocal(), m.ClassDef())) and not self.stack:
            for t in m.findall(n.body, m.OneOf(m.AssignTarget(), m.For(), m.CompFor(), m.AnnAssign(), m.NamedExpr(), m.AsName(), m.AugAssign())):
                tgt = t.name if isinstance(t, cst.AsName) else t.target
                if isinstance(tgt, cst.Name):
                    names.add(tgt.value)
                elif isinstance(tgt, cst.Tuple):
                    names |= {e.value.value for e in tgt.elements if isinstance(e.value, cst.Name)}
            imported = {a.value for i in m.findall(n.body, m.ImportAlias()) for a in m.findall(i, m.Name())}
            names -= {p.name.value for p in n.params.params} | {p.name.value for p in n.params.kwonly_params} | imported
        self.stack.append(names)

    def leave_FunctionDef(self, o, n):
        self.stack.pop()
        return n.with_changes(name=o.name)

    def visit_Attribute(self, n):
        n.value.visit(self) if False else None
        return True

    def leave_Attribute(self, o, n):
        return n.with_changes(attr=o.attr)

    def leave_Arg(self, o, n):
        return n.with_changes(keyword=o.keyword)

    def leave_Name(self, o, n):
        if self.stack and n.value in self.stack[-1]:
            return n.with_changes(value=n.value + "_x")
        return n


class Format(cst.CSTTransformer):
    """f"..{a}.." -> "..{}..".format(a)"""
    def visit_ConcatenatedString(self, n):
        return False

    def leave_FormattedString(self, o, n):
        if n.prefix.lower() != "f":
            return n
        txt, args = "", []
        for p in n.parts:
            if isinstance(p, cst.FormattedStringText):
                txt += p.value
            else:
                if p.format_spec or p.conversion or p.equal:
                    return n
                txt += "{}"
                args.append(cst.Arg(p.expression))
        if not args:
            return n
        return cst.Call(cst.Attribute(cst.SimpleString(n.quote + txt + n.quote) if False else cst.SimpleString(n.prefix[1:] + n.quote + txt + n.quote), cst.Name("format")), args)


class Loop(cst.CSTTransformer):
    """x = [e for v in L if c] -> x = []; for v in L: if c: x.append(e)"""
    def leave_SimpleStatementLine(self, o, n):
        if len(n.body) == 1 and isinstance(n.body[0], (cst.Assign, cst.AnnAssign)) and isinstance(n.body[0].value, cst.ListComp):
            a = n.body[0]
            t = a.targets[0].target if isinstance(a, cst.Assign) else a.target
            c = a.value.for_in
            if isinstance(t, cst.Name) and c.inner_for_in is None and not m.findall(a.value, m.Name(t.value)):
                add = cst.SimpleStatementLine(body=[cst.Expr(cst.Call(cst.Attribute(t, cst.Name("append")), [cst.Arg(a.value.elt)]))])
                for i in reversed(c.ifs):
                    add = cst.If(test=i.test, body=cst.IndentedBlock(body=[add]))
                return cst.FlattenSentinel([n.with_changes(body=[a.with_changes(value=cst.List([]))]), cst.For(target=c.target, iter=c.iter, body=cst.IndentedBlock(body=[add]))])
        return n


class ArgVar(cst.CSTTransformer):
    """x.append(e) / r += e -> item = e; x.append(item)"""
    def leave_SimpleStatementLine(self, o, n):
        if len(n.body) == 1 and isinstance(n.body[0], cst.Expr) and isinstance(n.body[0].value, cst.Call):
            call = n.body[0].value
            if len(call.args) == 1 and call.args[0].keyword is None and not call.args[0].star and not isinstance(call.args[0].value, (cst.Name, cst.GeneratorExp, cst.SimpleString, cst.Lambda)):
                return cst.FlattenSentinel([n.with_changes(body=[cst.Assign(targets=[cst.AssignTarget(cst.Name("the_item"))], value=call.args[0].value.with_changes(lpar=[cst.LeftParen()], rpar=[cst.RightParen()]))]),
                                            cst.SimpleStatementLine(body=[cst.Expr(call.with_changes(args=[cst.Arg(cst.Name("the_item"))]))])])
        return n


KINDS = {k.__name__.lower(): k for k in (Invert, ReturnVar, Guard, NoElse, CondVar, Impl, Rename, Format, Loop, ArgVar)}
if OUT.exists():
    shutil.rmtree(OUT)
OUT.mkdir(parents=True)
shutil.copytree("/repo/src", OUT / "src", symlinks=True, ignore=shutil.ignore_patterns("*.so", "__pycache__"))
for x in ("pyproject.toml",):
    shutil.copy("/repo/" + x, OUT / x)
n = 0
for f in sorted((OUT / "src").rglob("*.py")):
    if "/tests/" in str(f) or f.name.startswith("test") or f.name.endswith("_test.py"):
        continue
    src = f.read_text(encoding="utf-8")
    new = cst.parse_module(src).visit(KINDS[KIND]()).code
    compile(new, str(f), "exec")
    if new != src:
        n += 1
        f.write_text(new, encoding="utf-8")
print(KIND, n, "files")
