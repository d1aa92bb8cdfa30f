"""C21: text replacements and text tests concern whole identifiers.

(a) the built-in replacement tables are folded to constants (vlib.ceval) and the structure of each regular expression is examined: an edge of a match
    which can be an identifier character is guarded (word boundary, look-around, anchor) or reproduced by the replacement;
(b) the order of a table never lets an earlier rule destroy what a later one matches;
(c) patterns built in the code around an identifier (holes) have guarded edges, and no lone `.`;
(d) plain text replacements / prefix and suffix tests with C++ or Python words, or with identifiers, end at something which is not an identifier character;
(e) hand-written scanners accept every identifier character, and emit the pending identifier before anything that follows it."""
from __future__ import annotations

import ast
import re
from typing import Any, Iterator, Optional

from rules.c15 import LIB, NOT_LIB, library
from vlib import rx
from vlib.ceval import CEval, Env, Raised, Unknown
from vlib.project import Func, Project
from vlib.report import Report

TECHNIQUE = "constant folding of the replacement tables with structural analysis of their regular expressions (edge guards, shadowing), interprocedural reconstruction of the patterns and needles built in the code, and a pending-token dataflow on hand-written scanners"
LEVEL_NOTE = "Replacements added by the user at run time are not judged. Dynamic needles are judged when they are named after an identifier (name, prefix, namespace, scope, macro). The content of string literals inside values is not modelled by part (a)."

LANG = set("const static constexpr volatile mutable unsigned signed long short int float double bool char void std py nb pybind11 nanobind operator namespace class struct enum inline extern"
           " virtual override true false nullptr NULL sizeof template typename auto union typedef using public private protected friend noexcept delete default return size_t string vector".split())
IDENT_HOLE = re.compile(r"(?:^|_)(?:name|names|prefix|namespace|identifier|macro|scope|ns)(?:_|$)")
NOT_IDENT_HOLE = re.compile(r"file|folder|dir|path|module_name")
PH = "Zq"


class Hole:
    def __init__(self, node: ast.AST):
        self.node = node

    @property
    def label(self) -> str:
        n = self.node
        while True:
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lstrip", "rstrip", "lower", "upper", "escape", "str_code") and (n.args or True):
                    n = n.args[0] if n.func.attr == "escape" and n.args else n.func.value
                    continue
                n = n.func
                continue
            if isinstance(n, ast.Attribute):
                return n.attr
            if isinstance(n, ast.Name):
                return n.id
            if isinstance(n, ast.Subscript):
                n = n.value
                continue
            return ""


Seg = Any  # str | Hole


class Builder:
    """text of a string expression as alternatives of segments"""

    def __init__(self, p: Project):
        self.p = p

    def const(self, f: Optional[Func], mod: Any, n: ast.AST) -> Optional[str]:
        if isinstance(n, ast.Constant):
            return n.value if isinstance(n.value, str) else None
        if isinstance(n, ast.Name):
            try:
                v = CEval(self.p).global_value(mod, n.id)
            except (Unknown, Raised):
                return None
            except Exception:
                return None
            return v if isinstance(v, str) else None
        return None

    def assignments(self, f: Func, name: str) -> Optional[list[ast.expr]]:
        r: list[ast.expr] = []
        for n in self.p.own_nodes(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        r.append(n.value)
                    elif any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(t) if isinstance(getattr(x, "ctx", None), ast.Store)):
                        return None
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
                r.append(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                return None
            elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)):
                return None
            elif isinstance(n, ast.NamedExpr) and n.target.id == name:
                r.append(n.value)
        return r

    def text(self, f: Optional[Func], mod: Any, n: ast.AST, env: Optional[dict[str, list[list[Seg]]]] = None, depth: int = 0) -> list[list[Seg]]:
        if depth > 8:
            return [[Hole(n)]]
        if isinstance(n, ast.Constant):
            return [[n.value]] if isinstance(n.value, str) else [[Hole(n)]]
        if isinstance(n, ast.JoinedStr):
            alts: list[list[Seg]] = [[]]
            for v in n.values:
                if isinstance(v, ast.Constant):
                    alts = [a + [v.value] for a in alts]
                elif isinstance(v, ast.FormattedValue):
                    sub = self.text(f, mod, v.value, env, depth + 1) if v.format_spec is None else [[Hole(v.value)]]
                    alts = [a + s for a in alts for s in sub][:16]
            return alts
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            left, right = self.text(f, mod, n.left, env, depth + 1), self.text(f, mod, n.right, env, depth + 1)
            return [a + b for a in left for b in right][:16]
        if isinstance(n, ast.IfExp):
            return (self.text(f, mod, n.body, env, depth + 1) + self.text(f, mod, n.orelse, env, depth + 1))[:16]
        if isinstance(n, ast.Name):
            if env is not None and n.id in env:
                return env[n.id]
            if f is not None and n.id in f.params:
                if self.assignments(f, n.id):
                    return [[Hole(n)]]
                return [[Hole(n)]]
            if f is not None:
                a = self.assignments(f, n.id)
                if a is None:
                    return [[Hole(n)]]
                if a:
                    out: list[list[Seg]] = []
                    for v in a:
                        if any(isinstance(x, ast.Name) and x.id == n.id for x in ast.walk(v)):
                            return [[Hole(n)]]
                        t = self.text(f, mod, v, env, depth + 1)
                        # an opaque value keeps the name of the variable
                        out += [[Hole(n)] if len(x) == 1 and isinstance(x[0], Hole) and not Hole(v).label else x for x in t]
                    return out[:16]
            c = self.const(f, mod, n)
            return [[c]] if c is not None else [[Hole(n)]]
        if isinstance(n, ast.Call):
            name = self.p.full_name(mod, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else ""
            if name == "re.escape" and n.args:
                return [[x if isinstance(x, Hole) else re.escape(x) for x in a] for a in self.text(f, mod, n.args[0], env, depth + 1)]
            if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
                return [self.fmt(n)]
            if isinstance(n.func, ast.Attribute) and n.func.attr == "join" and isinstance(n.func.value, ast.Constant):
                return [[Hole(n)]]
            targets, _ = self.p.callees(mod, n)
            if len(targets) == 1:
                g = targets[0]
                rets = [x.value for x in self.p.own_nodes(g) if isinstance(x, ast.Return) and x.value is not None]
                if len(rets) == 1 and not any(isinstance(x, (ast.For, ast.While)) for x in self.p.own_nodes(g)):
                    sub = self.bind(f, mod, g, n, env, depth)
                    if sub is not None:
                        r = self.text(g, g.module, rets[0], sub, depth + 1)
                        if any(not (len(a) == 1 and isinstance(a[0], Hole)) for a in r):
                            return r
        return [[Hole(n)]]

    def fmt(self, n: ast.Call) -> list[Seg]:
        out: list[Seg] = []
        for i, part in enumerate(re.split(r"\{[^{}]*\}", n.func.value.value)):  # type: ignore
            if i:
                out.append(Hole(n.args[min(i - 1, len(n.args) - 1)] if n.args else n.keywords[0].value if n.keywords else n))
            out.append(part)
        return [s for s in out if s != ""]

    def bind(self, f: Optional[Func], mod: Any, g: Func, call: ast.Call, env: Any, depth: int) -> Optional[dict[str, list[list[Seg]]]]:
        params = list(g.params)
        if g.cls is not None and not g.is_static and params:
            params = params[1:]
        out: dict[str, list[list[Seg]]] = {}
        for i, a in enumerate(call.args):
            if isinstance(a, ast.Starred) or i >= len(params):
                return None
            out[params[i]] = self.text(f, mod, a, env, depth + 1)
        for k in call.keywords:
            if k.arg is None:
                return None
            out[k.arg] = self.text(f, mod, k.value, env, depth + 1)
        return out


RE_BOTH = {"search", "sub", "subn", "findall", "split", "finditer", "compile"}


class Rule:
    def __init__(self, p: Project, rep: Report):
        self.p, self.rep, self.b = p, rep, Builder(p)

    def modules(self) -> list[Any]:
        return [m for m in self.p.modules.values() if m.name.startswith(LIB) and not any(x in m.name for x in NOT_LIB) and not m.name.startswith("srcmlcpp_tools")]

    # -- (a) (b) tables
    def tables(self) -> None:
        for f in self.p.funcs.values():
            if not library(f):
                continue
            r = getattr(f.node, "returns", None)
            if r is None or "RegexReplacementList" not in ast.unparse(r) or f.params:
                continue
            try:
                ce = CEval(self.p)
                v = ce.call(f)
                rules = [(CEval(self.p).attr(x, "replace_what_re"), CEval(self.p).attr(x, "by_what")) for x in CEval(self.p).attr(v, "replacements")]
                rules = [(a.pattern, b) for a, b in rules]
                assert all(isinstance(a, str) and isinstance(b, str) for a, b in rules)
            except (Unknown, Raised, AttributeError, AssertionError) as e:
                self.rep.count("tables_not_constant")
                self.rep.notes.append(f"table not constant: {f.qual}: {e}")
                continue
            self.rep.count("tables")
            self.table(f, rules)

    def table(self, f: Func, rules: list[tuple[str, str]]) -> None:
        def full(s: str) -> str:
            for _ in range(3):
                for x, y in rules:
                    s = re.sub(x, y, s)
            return s

        for what, by in rules:
            self.rep.count("table_rules")
            c = f"{f.name}: {what} -> {by}"
            try:
                t = rx.parse(what)
            except re.error as e:
                self.rep.add("invalid-regex", c, f.loc(), f"the replaced expression is not a regular expression: {e}")
                continue
            for left in (True, False):
                k = rx.template_edge(by, left)
                bad, _, _ = rx.edge(t, left, lambda g: g == k)
                if bad:
                    self.rep.add("table-edge", c, f.loc(), f"nothing keeps the {'left' if left else 'right'} edge of {what!r} from matching inside a longer identifier")
            if rx.lone_any(t):
                self.rep.add("table-wildcard", c, f.loc(), f"`.` stands for any character in {what!r} (an identifier character too)")
            w = rx.witness(t)
            if w is None or not re.search(what, w):
                self.rep.count("rules_without_witness")
                continue
            try:
                alone, inorder = full(re.sub(what, by, w)), full(w)
            except (re.error, IndexError) as e:
                self.rep.add("invalid-regex", c, f.loc(), f"the replacement fails: {e}")
                continue
            self.rep.count("order_obligations")
            if alone != inorder:
                self.rep.add("table-order", c, f.loc(), f"an earlier rule destroys {w!r} before {what!r} is tried: {inorder!r} instead of {alone!r}")

    # -- (c) patterns built in the code
    def sinks(self) -> dict[str, list[tuple[int, str, str]]]:
        """functions whose parameter becomes a whole pattern: qual -> (index, name, mode)"""
        out: dict[str, list[tuple[int, str, str]]] = {}
        changed = True
        while changed:
            changed = False
            for f in self.p.funcs.values():
                if isinstance(f.node, ast.Lambda):
                    continue
                for n in self.p.own_nodes(f):
                    if not isinstance(n, ast.Call):
                        continue
                    for arg, mode in self.pattern_args(f, f.module, n, out):
                        if isinstance(arg, ast.Name) and arg.id in f.params and not self.b.assignments(f, arg.id):
                            item = (f.params.index(arg.id), arg.id, mode)
                            if item not in out.setdefault(f.qual, []):
                                out[f.qual].append(item)
                                changed = True
        return out

    def pattern_args(self, f: Optional[Func], mod: Any, n: ast.Call, sinks: dict) -> list[tuple[ast.expr, str]]:
        name = self.p.full_name(mod, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else ""
        if name.startswith("re.") and name[3:] in RE_BOTH | {"match", "fullmatch"} and n.args:
            if any(k.arg == "flags" and "VERBOSE" in ast.unparse(k.value) for k in n.keywords) or any("VERBOSE" in ast.unparse(a) for a in n.args[1:]):
                return []
            return [(n.args[0], "both" if name[3:] in RE_BOTH else name[3:])]
        r: list[tuple[ast.expr, str]] = []
        targets, _ = self.p.callees(mod, n)
        cls = self.p.constructed_class(mod, n)
        if cls is not None:
            m = self.p.find_method(cls, "__init__")
            targets = [m] if m is not None else []
        for g in targets:
            for i, pname, mode in sinks.get(g.qual, []):
                off = 1 if g.cls is not None and not g.is_static else 0
                if i - off < len(n.args) and i - off >= 0:
                    a = n.args[i - off]
                    if not isinstance(a, ast.Starred):
                        r.append((a, mode))
                for k in n.keywords:
                    if k.arg == pname:
                        r.append((k.value, mode))
        return r

    def calls(self) -> Iterator[tuple[Optional[Func], Any, ast.Call]]:
        for m in self.modules():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    yield self.p.enclosing_func(n), m, n

    def patterns(self) -> None:
        sinks = self.sinks()
        self.rep.count("pattern_parameters", sum(len(v) for v in sinks.values()))
        for f, mod, n in self.calls():
            for arg, mode in self.pattern_args(f, mod, n, sinks):
                self.rep.count("pattern_sites")
                for alt in self.b.text(f, mod, arg):
                    self.pattern(f, mod, n, arg, alt, mode)

    def pattern(self, f: Optional[Func], mod: Any, n: ast.Call, arg: ast.expr, alt: list[Seg], mode: str) -> None:
        holes = [s for s in alt if isinstance(s, Hole)]
        if holes and all(isinstance(s, Hole) or not s for s in alt):
            # the whole pattern comes from elsewhere (the user, or a caller which is judged itself); an identifier is not a pattern
            if mode == "both" and len(holes) == 1 and isinstance(holes[0].node, (ast.Name, ast.Attribute)) and re.search(r"(?:^|_)(?:name|namespace|identifier|macro)(?:_cpp|_python)?$", holes[0].label):
                self.rep.add("pattern-edge", self.construct(f, mod, n, arg), self.loc(mod, n), f"the identifier `{holes[0].label}` is searched without word boundaries")
            return
        text = "".join(PH if isinstance(s, Hole) else s for s in alt)
        try:
            t = rx.parse(text)
        except re.error:
            return
        self.rep.count("patterns")
        self.rep.sample(f"pattern {text!r} at {self.loc(mod, n)}")
        if holes and rx.lone_any(t):
            self.rep.add("pattern-wildcard", self.construct(f, mod, n, arg), self.loc(mod, n), f"`.` stands for any character (an identifier character too) in the pattern {self.show(alt)}")
        for left in (True, False):
            if mode == "fullmatch" or (mode == "match" and left):
                continue
            k = None
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("sub", "subn") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                k = rx.template_edge(n.args[1].value, left)
            bad, _, _ = rx.edge(t, left, lambda g: g == k)
            if not bad:
                continue
            ws = rx.edge_words(t, left)
            if any(w in LANG or PH in w for w in ws):
                self.rep.add("pattern-edge", self.construct(f, mod, n, arg), self.loc(mod, n), f"nothing keeps the {'left' if left else 'right'} edge of the pattern {self.show(alt)} from matching inside a longer identifier")

    def show(self, alt: list[Seg]) -> str:
        return repr("".join("{" + (s.label or "…") + "}" if isinstance(s, Hole) else s for s in alt))

    def construct(self, f: Optional[Func], mod: Any, n: ast.Call, arg: ast.expr) -> str:
        return f"{f.qual if f else mod.name}: {ast.unparse(n)[:100]}"

    def loc(self, mod: Any, n: ast.AST) -> str:
        return f"{mod.path}:{getattr(n, 'lineno', 0)}" if not hasattr(mod, "rel") else f"{mod.rel}:{getattr(n, 'lineno', 0)}"

    # -- (d) plain text
    def plain(self) -> None:
        for f, mod, n in self.calls():
            if not isinstance(n.func, ast.Attribute) or not n.args:
                continue
            a = n.func.attr
            if a == "replace" and len(n.args) >= 2:
                if not self.compared_only(f, n):
                    self.needle(f, mod, n, n.args[0], True, True, n.args[1])
            elif a in ("startswith", "removeprefix"):
                for x in n.args[0].elts if isinstance(n.args[0], ast.Tuple) else [n.args[0]]:
                    self.needle(f, mod, n, x, False, True, None)
            elif a in ("endswith", "removesuffix"):
                for x in n.args[0].elts if isinstance(n.args[0], ast.Tuple) else [n.args[0]]:
                    self.needle(f, mod, n, x, True, False, None)
            elif a in ("split", "partition", "rpartition", "rsplit"):
                self.needle(f, mod, n, n.args[0], True, True, None)
        # slices compared with a word: s[:len(w)] == w
        for m in self.modules():
            for c in ast.walk(m.tree):
                if isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Eq, ast.NotEq)) and isinstance(c.left, ast.Subscript) and isinstance(c.left.slice, ast.Slice):
                    f = self.p.enclosing_func(c)
                    sl = c.left.slice
                    if sl.lower is None and sl.upper is not None:
                        self.needle(f, m, c, c.comparators[0], False, True, None)
                    elif sl.lower is not None and sl.upper is None:
                        self.needle(f, m, c, c.comparators[0], True, False, None)

    def needle(self, f: Optional[Func], mod: Any, n: ast.AST, arg: ast.expr, left: bool, right: bool, by: Optional[ast.expr]) -> None:
        self.rep.count("text_tests")
        for alt in self.b.text(f, mod, arg):
            alt = [s for s in alt if s != ""]
            if not alt:
                continue
            text = "".join(PH if isinstance(s, Hole) else s for s in alt)
            if by is not None:
                for b in self.b.text(f, mod, by):
                    bt = "".join(PH if isinstance(s, Hole) else s for s in b)
                    if not any(isinstance(s, Hole) for s in b) and bt.replace(" ", "") == text.replace(" ", ""):
                        return  # blanks only
            for side in ([True] if left else []) + ([False] if right else []):
                s = alt[0] if side else alt[-1]
                if isinstance(s, Hole):
                    lab = s.label
                    if not IDENT_HOLE.search(lab) or NOT_IDENT_HOLE.search(lab) or lab.isupper():
                        continue
                    if self.case_folded(s.node) or self.case_folded(arg):
                        continue  # a naming convention (prefix of enumerators), not a translation
                    if not self.ident_like(f, mod, s):
                        continue
                else:
                    m = re.match(r"\w+", s) if side else re.search(r"\w+$", s)
                    if m is None or m.group() not in LANG:
                        continue
                    lab = m.group()
                if self.bounded_next(f, n):
                    continue
                what = ast.unparse(n)[:110]
                self.rep.add("text-edge", f"{f.qual if f else mod.name}: {what}", self.loc(mod, n), f"`{lab}` is looked for as plain text, its {'left' if side else 'right'} edge can be the middle of a longer identifier")
                break

    def ident_like(self, f: Optional[Func], mod: Any, s: Hole) -> bool:
        """not a template slot or a decorated marker: a plain attribute, name or call"""
        n = s.node
        return isinstance(n, (ast.Name, ast.Attribute, ast.Call))

    def case_folded(self, n: ast.AST) -> bool:
        return any(isinstance(x, ast.Attribute) and x.attr in ("lower", "upper", "casefold") for x in ast.walk(n))

    def bounded_next(self, f: Optional[Func], n: ast.AST) -> bool:
        """the same condition also looks at the next character (`s[len(p):]…`, a regular expression …)"""
        x: Any = n
        while True:
            par = self.p.parent_of.get(x)
            if isinstance(par, (ast.BoolOp, ast.UnaryOp)):
                x = par
                continue
            break
        if x is n:
            return False
        others = [v for v in ast.walk(x) if v is not n]
        return any(isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("isalnum", "isidentifier", "isalpha", "match", "search", "fullmatch") for v in others) or any(
            isinstance(v, ast.Subscript) and "len(" in ast.unparse(v.slice) for v in others)

    def compared_only(self, f: Optional[Func], n: ast.AST) -> bool:
        x: Any = n
        while True:
            par = self.p.parent_of.get(x)
            if isinstance(par, ast.Attribute) and isinstance(self.p.parent_of.get(par), ast.Call):
                x = self.p.parent_of[par]
                continue
            break
        par = self.p.parent_of.get(x)
        if isinstance(par, ast.Compare):
            return True
        name = None
        if isinstance(par, ast.Assign) and len(par.targets) == 1 and isinstance(par.targets[0], ast.Name):
            name = par.targets[0].id
        elif isinstance(par, ast.AnnAssign) and isinstance(par.target, ast.Name):
            name = par.target.id
        elif isinstance(par, ast.Return) and f is not None:
            sites = self.p.call_sites().get(f.qual, [])
            return bool(sites) and all(isinstance(self.p.parent_of.get(c), ast.Compare) for _, _, c in sites)
        if name is None or f is None:
            return False
        loads = [v for v in self.p.own_nodes(f) if isinstance(v, ast.Name) and v.id == name and isinstance(v.ctx, ast.Load)]
        return bool(loads) and all(isinstance(self.p.parent_of.get(v), ast.Compare) or self.inside_replace_chain(v, name) for v in loads)

    def inside_replace_chain(self, v: ast.AST, name: str) -> bool:
        """t = t.replace(…): the value stays in the variable"""
        x: Any = v
        while isinstance(self.p.parent_of.get(x), ast.Attribute) and isinstance(self.p.parent_of.get(self.p.parent_of[x]), ast.Call):
            x = self.p.parent_of[self.p.parent_of[x]]
        par = self.p.parent_of.get(x)
        return x is not v and (isinstance(par, ast.Compare) or isinstance(par, ast.Assign) and len(par.targets) == 1 and isinstance(par.targets[0], ast.Name) and par.targets[0].id == name)

    # -- (e) scanners
    def scanners(self) -> None:
        for f in self.p.funcs.values():
            if isinstance(f.node, ast.Lambda) or not library(f):
                continue
            for loop in self.p.own_nodes(f):
                if isinstance(loop, (ast.While, ast.For)):
                    self.scanner(f, loop)

    def scanner(self, f: Func, loop: Any) -> None:
        # tok += c under a test of the character c
        for t in ast.walk(loop):
            if not (isinstance(t, ast.AugAssign) and isinstance(t.op, ast.Add) and isinstance(t.target, ast.Name) and isinstance(t.value, ast.Name)):
                continue
            tok, ch = t.target.id, t.value.id
            tests = []
            x: Any = t
            while x is not loop:
                par = self.p.parent_of[x]
                if isinstance(par, ast.If) and x in par.body and any(isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("isalnum", "isalpha", "isidentifier") and
                                                                      isinstance(v.func.value, ast.Name) and v.func.value.id == ch for v in ast.walk(par.test)):
                    tests.append(par)
                x = par
            if not tests:
                continue
            self.rep.count("scanners")
            for c in sorted(rx.WORD):
                v = self.accepts(f, tests[0].test, ch, c)
                if v is False:
                    self.rep.add("scanner-class", f"{f.qual}: {ast.unparse(tests[0].test)[:80]}", f.loc(tests[0]), f"the identifier character {c!r} is not accepted by the scanner which collects `{tok}`")
                    break
            self.pending(f, loop, tok)

    def accepts(self, f: Func, test: ast.expr, ch: str, c: str) -> Optional[bool]:
        """the test at this character, when the other conditions are favourable"""
        if isinstance(test, ast.BoolOp):
            vals = [self.accepts(f, v, ch, c) for v in test.values]
            if isinstance(test.op, ast.Or):
                return True if True in vals else False if False in vals else None
            return False if False in vals else True if True in vals else None
        if isinstance(test, ast.Name) and test.id != ch:
            a = self.b.assignments(f, test.id)
            return self.accepts(f, a[0], ch, c) if a is not None and len(a) == 1 else None
        if not any(isinstance(x, ast.Name) and x.id == ch for x in ast.walk(test)):
            return None
        e = Env(f.module, f)
        e.vars[ch] = c
        try:
            ce = CEval(self.p)
            return bool(ce.truth(ce.ev(test, e)))
        except (Unknown, Raised):
            return None
        except Exception:
            return None

    def pending(self, f: Func, loop: Any, tok: str) -> None:
        """every `out += text` is reached with `tok` empty, where out is the accumulator which receives tok"""
        outs = {n.target.id for n in self.p.own_nodes(f) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id != tok and
                any(isinstance(x, ast.Name) and x.id == tok for x in ast.walk(n.value))}
        if not outs:
            return

        def walk(body: list[ast.stmt], s: bool) -> Optional[bool]:
            """s: tok may be non-empty; None: the end is not reached"""
            cur: Optional[bool] = s
            for st in body:
                if cur is None:
                    return None
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == tok for t in st.targets):
                    cur = not (isinstance(st.value, ast.Constant) and not st.value.value)
                elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                    if st.target.id == tok:
                        cur = True
                    elif st.target.id in outs:
                        names = {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name)}
                        self.rep.count("scanner_outputs")
                        if tok in names:
                            pass
                        elif cur:
                            self.rep.add("scanner-order", f"{f.qual}: {ast.unparse(st)}", f.loc(st), f"text is emitted while the identifier collected in `{tok}` is still pending: it comes out after what follows it")
                elif isinstance(st, ast.If):
                    tests_tok = isinstance(st.test, ast.Name) and st.test.id == tok
                    neg_tok = isinstance(st.test, ast.UnaryOp) and isinstance(st.test.op, ast.Not) and isinstance(st.test.operand, ast.Name) and st.test.operand.id == tok
                    if isinstance(st.test, ast.Compare) and tok in {x.id for x in ast.walk(st.test) if isinstance(x, ast.Name)}:
                        op, cst = st.test.ops[0], st.test.comparators[0]
                        if isinstance(cst, ast.Constant) and cst.value in ("", 0):
                            tests_tok = isinstance(op, (ast.NotEq, ast.Gt))
                            neg_tok = isinstance(op, ast.Eq)
                    a = walk(st.body, False if neg_tok else cur)
                    b = walk(st.orelse, False if tests_tok else cur)
                    cur = b if a is None else a if b is None else a or b
                elif isinstance(st, (ast.For, ast.While)):
                    a = walk(st.body, cur)
                    if a and not cur:
                        walk(st.body, True)
                    cur = cur or bool(a)
                elif isinstance(st, ast.With):
                    cur = walk(st.body, cur)
                elif isinstance(st, ast.Try):
                    a = walk(st.body, cur)
                    for h in st.handlers:
                        walk(h.body, True)
                    cur = a
                elif isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                    return None if not isinstance(st, ast.Continue) else None
                elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
                    # a local helper which flushes (nonlocal tok = "")
                    g = [h for h in self.p.funcs.values() if h.parent is f and isinstance(st.value.func, ast.Name) and h.name == st.value.func.id]
                    if g and any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == tok for t in x.targets) and isinstance(x.value, ast.Constant) and not x.value.value
                                 for x in self.p.own_nodes(g[0])):
                        cur = False
            return cur

        walk(loop.body, True)


def run(p: Project, tier: str) -> Report:
    rep = Report("C21", "every translation or test of C++/Python words and identifiers - tables of regular expressions, patterns built in the code, plain replacements, prefix and suffix tests, "
                        "hand-written scanners - ends where an identifier ends, and no rule of a table destroys what a later rule matches")
    r = Rule(p, rep)
    r.tables()
    r.patterns()
    r.plain()
    r.scanners()
    rep.need("pattern_sites", 5)
    rep.assumptions = ["identifiers are made of ASCII letters, digits and underscores"]
    return rep
