"""C17: the text of a comment cannot break the generated code.

Abstract interpretation of the code which turns comments into generated text.  The text of a comment is a value which may hold newlines, double
quotes and backslashes; the transformations it goes through (replace, split, join, character loops, regex substitutions with constant patterns,
f-strings...) remove or add hazards; where it is put next to constant text, this text says in which context it lands:
  after an opening quote        a C++ (or python) string literal: no newline, no bare quote, no backslash which is not a valid escape
  after three quotes            a docstring: no three quotes, no bare backslash, and no quote just before the closing ones
  after # or //                 an end of line comment: no newline
and text which reaches the lines of the stub or of the bindings outside of these contexts is reported."""
from __future__ import annotations

import ast
import re
import string
from dataclasses import dataclass, replace
from typing import Any, Optional

from vlib.report import Report
from vlib.project import Func, Project

TECHNIQUE = "taint analysis by abstract interpretation of text values (hazards: newline, quote, backslash, triple quote; contexts deduced from the adjacent constant text), with character loops analysed as transducers over character classes"
LEVEL_NOTE = ("Sources: the comments of the parsed elements and the code of preprocessor conditions. Word replacements of the options are taken to keep text harmless; texts kept in attributes of other objects are not followed; "
              "words read as directives in a comment (return policies) are not text.")

SOURCES = {"comment_on_previous_lines", "comment_end_of_line", "macro_code"}
CODE = {"initial_value_code"}
VERBATIM = {"str_code_verbatim"}
RAW = frozenset("nqbde")
VALID = {"lit": set("ntrabfv\"'?01234567\\"), "doc": set("ntrabfv\"'01234567\\\n")}
ALPHABET = ["\\", '"', "'", "\n", " "] + list(string.ascii_letters + string.digits + "?.,;:!/%&*+-=<>()[]{}#@$^_~|`")
KEEP = {"lower", "upper", "expandtabs", "casefold", "swapcase", "capitalize", "title", "removeprefix", "removesuffix", "ljust", "rjust", "center", "encode", "decode", "translate", "zfill", "strip", "lstrip", "rstrip"}
NEUTRAL = {"len", "isinstance", "print", "any", "all", "hasattr", "bool", "int", "float", "id", "type", "hash", "range", "max", "min", "sum", "ord", "issubclass", "repr", "ascii"}
TEXTLIKE = {"startswith", "endswith", "find", "rfind", "index", "count", "isspace", "isdigit", "isalpha", "isalnum", "isidentifier", "isupper", "islower"}


@dataclass(frozen=True)
class V:
    kind: str = "o"                           # t text, l list, m table, f function, o anything else
    txt: str = "X"                            # known text, X for what is unknown
    const: bool = False
    raw: Optional[frozenset] = None           # hazards of the text of a comment which is not in a context yet
    pe: bool = False                          # the text just placed in a docstring may end with a quote
    elem: Optional["V"] = None
    doc: bool = False                         # a list of lines in which a docstring is open
    char: bool = False
    slots: tuple = ()
    fn: Any = None
    env: Any = None
    args: frozenset = frozenset()

    @property
    def key(self) -> tuple:
        return (self.kind, self.txt if len(self.txt) < 400 else hash(self.txt), self.const, self.raw, self.pe, self.elem.key if self.elem else None, self.doc, self.char, tuple((a, b.key) for a, b in self.slots), id(self.fn) if self.fn else 0)


O = V()


def uni(a: frozenset, b: frozenset) -> frozenset:
    """hazards of one or the other ("s": the only line of a split text, holds when it does for both)"""
    r = a | b
    return r - {"s"} if "s" in r and not ("s" in a and "s" in b) else r


def code(v: V) -> bool:
    """text which is code (it may take several lines) and not prose: it can be put anywhere but in a comment which ends with its line"""
    return v.raw is not None and "C" in v.raw and v.raw <= {"C", "n", "s"}


def const(s: str) -> V:
    return V("t", s, True)


def tainted(raw: frozenset, **kw: Any) -> V:
    return V("t", "X", False, raw, **kw)


def lst(elem: V, **kw: Any) -> V:
    return V("l", elem=elem, **kw)


def context(txt: str) -> Optional[str]:
    """where text put after this one lands"""
    triple = txt.count('"""')
    if triple % 2:
        return "doc"
    line = txt.replace('"""', "").split("\n")[-1]
    inside = None
    i = 0
    while i < len(line):
        c = line[i]
        if inside:
            if c == "\\":
                i += 1
            elif c == inside:
                inside = None
        elif c == '"' or (c == "'" and not re.match(r"'?\w*'?\w", line[i - 1:i] or " ")):
            inside = c
        elif c == "#" or line[i:i + 2] == "//":
            return "com"
        i += 1
    return "lit" if inside == '"' else None


def join(a: Optional[V], b: Optional[V]) -> Optional[V]:
    if a is None:
        return b
    if b is None or a == b:
        return a
    raw = a.raw if b.raw is None else b.raw if a.raw is None else uni(a.raw, b.raw)
    if a.kind == "l" or b.kind == "l":
        if a.kind == "l" and b.kind == "l":
            return V("l", elem=join(a.elem, b.elem), doc=a.doc or b.doc, pe=a.pe or b.pe)
        x = a if a.kind == "l" else b
        other = b if a.kind == "l" else a
        return x if other.raw is None else V("t", raw=join(x.elem or O, other).raw)  # type: ignore
    if a.kind == "m" and b.kind == "m":
        d = dict(a.slots)
        for k, v in b.slots:
            d[k] = join(d.get(k), v)  # type: ignore
        return V("m", slots=tuple(sorted(d.items(), key=lambda x: x[0])))
    if a.kind == "m" or b.kind == "m":
        return a if a.kind == "m" else b
    if a.kind == "f" and b.kind == "f":
        return a
    txt = a.txt if a.txt == b.txt else "X"
    if txt == "X":
        for x, y in ((a, b), (b, a)):
            if context(x.txt) == context(y.txt) and not x.const:
                txt = x.txt
                break
        else:
            if context(a.txt) == context(b.txt) and context(a.txt):
                txt = a.txt
    return V("t" if "t" in (a.kind, b.kind) else "o", txt, False, raw, a.pe or b.pe, char=a.char and b.char)


class Env(dict):
    pass


class Interp:
    def __init__(self, p: Project, rep: Report):
        self.p, self.rep = p, rep
        self.memo: dict[tuple, V] = {}
        self.stack: list[Func] = []
        self.sites: set[tuple] = set()
        self.loc: list[tuple[Func, ast.AST]] = []

    # ---------------------------------------------------------------- contexts
    def check(self, raw: frozenset, ctx: str, f: Func, n: ast.AST) -> None:
        self.sites.add((f.qual, getattr(n, "lineno", 0), ctx))
        bad = []
        residual = {c for h in raw if h.startswith("r:") for c in h[2:]}
        if ctx == "lit":
            if "n" in raw:
                bad.append("a line break")
            if "q" in raw:
                bad.append("a double quote which is not escaped")
            if "Q" in raw:
                bad.append("a quote whose escape is undone by a backslash of the text")
            if "b" in raw:
                bad.append("a backslash which is not escaped")
            if residual - VALID["lit"]:
                bad.append("a backslash before " + " ".join(sorted(residual - VALID["lit"])))
        elif ctx == "doc":
            if "d" in raw or "D" in raw:
                bad.append("three quotes")
            if "b" in raw:
                bad.append("a backslash which is not escaped")
            if residual - VALID["doc"]:
                bad.append("a backslash before " + " ".join(sorted(residual - VALID["doc"])))
        elif "n" in raw:
            bad.append("a line break")
        where = {"lit": "a string literal", "doc": "a docstring", "com": "a comment which ends with its line"}[ctx]
        if bad:
            self.rep.add("context", f"{f.qual}|{ctx}|{','.join(bad)}", f.loc(n), f"the text of {'a value' if 'C' in raw else 'a comment'} is put in {where}, and may hold {', '.join(bad)}")

    def closing(self, f: Func, n: ast.AST) -> None:
        self.rep.add("context", f"{f.qual}|doc|end", f.loc(n), "the text of a comment may end with a quote just before the quotes which close the docstring")

    def cat(self, a: V, b: V, f: Func, n: ast.AST) -> V:
        if a.kind == "l" or b.kind == "l":
            return self.extend(a if a.kind == "l" else lst(O), b, f, n)
        if a.const and b.const:
            return const(a.txt + b.txt)
        if a.const and a.txt == "":
            return b if b.kind == "t" else replace(b, kind="t")
        if b.const and b.txt == "":
            return a
        if code(b):
            ctx = context(a.txt) if a.raw is None or code(a) else None
            if ctx and not f.module.name.startswith("srcmlcpp"):
                if ctx == "com":
                    self.check(b.raw or frozenset(), ctx, f, n)
                return V("t", a.txt + "X", False, a.raw)
            return V("t", a.txt + "X" if a.raw is None or code(a) else "X", False, b.raw if a.raw is None else uni(a.raw, b.raw or frozenset()))
        if code(a) and b.raw is None:
            return V("t", a.txt + b.txt, False, a.raw)
        if b.raw is not None:
            if a.raw is None or code(a):
                ctx = context(a.txt)
                if ctx and not f.module.name.startswith("srcmlcpp"):  # what srcmlcpp makes is code to be shown, not generated code
                    self.check(b.raw, ctx, f, n)
                    return V("t", a.txt + "X", False, a.raw, pe=ctx == "doc" and "e" in b.raw)
                return V("t", "X", False, b.raw if a.raw is None else uni(a.raw, b.raw))
            return V("t", "X", False, uni(a.raw, b.raw))
        if a.raw is not None:
            raw = a.raw
            if b.const:
                raw = raw - {"e"} | ({"e"} if b.txt.endswith('"') else frozenset())
                if "\n" in b.txt:
                    raw = raw | {"n"}
            return V("t", "X", False, frozenset(raw))
        txt = a.txt + b.txt
        if a.pe and b.txt.startswith('"""'):
            self.closing(f, n)
        return V("t", txt if len(txt) < 3000 else txt[-1500:], pe=False)

    def extend(self, a: V, b: V, f: Func, n: ast.AST) -> V:
        """list + list (or one more line)"""
        e = (b.elem or O) if b.kind == "l" else b
        if e.kind == "o" and e.raw is None and b.kind == "l" and a.elem is None:
            return replace(a, elem=e, kind="l")
        doc, pe = a.doc, a.pe
        if a.doc and e.raw is not None and not code(e):
            self.check(e.raw, "doc", f, n)
            e = V("t", "X")
        elif (e.raw is None or code(e)) and e.kind == "t":
            if a.doc and '"""' in e.txt:
                doc = False
            elif context(e.txt) == "doc":
                doc, pe = True, e.pe
        if b.kind == "l" and b.doc:
            doc, pe = True, b.pe
        return V("l", elem=join(a.elem, e), doc=doc, pe=pe)

    # ---------------------------------------------------------------- transformations
    def sub(self, raw: frozenset, pat: str, out: "dict[str, str] | None", by: str) -> frozenset:
        r = set(raw)
        if pat == "\n":
            if "\n" not in by:
                r.discard("n")
        elif pat == '"':
            if "\\" in by and '"' in by:
                res = {c for h in r if h.startswith("r:") for c in h[2:]}
                if "b" in r or '"' in res:
                    if "q" in r:
                        r.add("Q" if "b" in r else "q")
                        if "b" in r:
                            r.discard("q")
                else:
                    r.discard("q")
                r -= {"d", "e"}
                r.add("x")
            elif '"' not in by:
                r -= {"q", "d", "e", "Q"}
        elif pat == '"""':
            if '"""' not in by:
                if "\\" in by and "b" in r:
                    r.add("D")
                r.discard("d")
                r.add("y")
        elif pat == "\\":
            if by == "\\\\" or "\\" not in by:
                r = {h for h in r if h != "b" and not h.startswith("r:")}
                if "x" in r or "Q" in r:
                    r |= {"q", "e"}
                if "x" in r or "y" in r:
                    r |= {"d"} if "y" in r or "x" in r else set()
                r -= {"x", "y", "Q", "D"}
        if '"' in by and pat not in ('"', '"""') and pat != "\\":
            r |= {"q", "d", "e"}
        if "\n" in by:
            r.add("n")
        if "\\" in by and pat not in ("\\", '"', '"""', "\n"):
            r.add("b")
        return frozenset(r)

    def transducer(self, raw: frozenset, out: "Any") -> frozenset:
        """out(c, next) -> set of texts written for the character c followed by next"""
        r = set(raw)
        nl = set().union(*[out("\n", c) for c in ALPHABET])
        if not any("\n" in o for o in nl):
            r.discard("n")
        quotes = set().union(*[out('"', c) for c in ALPHABET])
        bare = any(o == '"' or '"' in o and "\\" not in o for o in quotes)
        before: dict[str, set[str]] = {c: out("\\", c) for c in ALPHABET}
        single = frozenset(c for c, o in before.items() if any(x == "\\" for x in o))
        doubled = {c for c, o in before.items() if all(x == "\\\\" or "\\" not in x for x in o)}
        had_q = "q" in r
        if len(doubled) == len(before):
            r = set(self.sub(frozenset(r), "\\", None, "\\\\"))
            if not bare:
                r -= {"q", "d", "e", "Q"}
                r.add("x")
        elif single and doubled:
            r = {h for h in r if h != "b" and not h.startswith("r:")}
            if single != frozenset(ALPHABET):
                r.add("r:" + "".join(sorted(single)))
            if "Q" in r or "x" in r:
                if '"' in single:
                    r.discard("Q")
                    r.add("x")
                else:
                    r |= {"q", "e", "d"}
            if had_q:
                r.add("q")
                if not bare and '"' not in single:
                    r -= {"q", "d", "e"}
                    r.add("x")
        elif not bare:
            r = set(self.sub(frozenset(r), '"', None, '\\"' if any("\\" in o for o in quotes) else "'"))
        return frozenset(r)

    def regex(self, raw: frozenset, pat: str, by: str, flags: int = 0) -> frozenset:
        try:
            rx = re.compile(pat)
            m = {(c, d): rx.sub(by, c + d) for c in ALPHABET for d in ALPHABET if (c not in '\\"\n' or True)}
        except Exception:
            return raw

        def out(c: str, d: str) -> set[str]:
            full = m[(c, d)]
            tail = rx.sub(by, d)
            for t in (tail, d):
                if full.endswith(t) and len(full) >= len(t):
                    return {full[: len(full) - len(t)]}
            return {full}
        if rx.sub(by, 'a"""b').count('"""') == 0 and rx.sub(by, 'a"b') == 'a"b':
            return self.sub(raw, '"""', None, rx.sub(by, '"""'))
        return self.transducer(raw, out)

    # ---------------------------------------------------------------- functions
    def call_func(self, g: Func, args: list[V], kw: dict[str, V], env: Optional[Env] = None) -> V:
        if g in self.stack and self.stack.count(g) > 1 or len(self.stack) > 14:
            return self.unknown(args + list(kw.values()))
        a = g.node.args  # type: ignore
        names = [x.arg for x in a.posonlyargs + a.args]
        e = Env(env or {})
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for i, v in enumerate(args):
            if i < len(names):
                e[names[i]] = v
            elif a.vararg:
                e[a.vararg.arg] = lst(join((e.get(a.vararg.arg) or lst(v)).elem, v) or O)
        for k, v in kw.items():
            e[k] = v
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in e or (env is not None and nm in env and nm not in kw and names.index(nm) >= len(args) if nm in names else False):
                e[nm] = const(d.value) if isinstance(d := defaults.get(nm), ast.Constant) and isinstance(d.value, str) else O
        ck = (g.qual, tuple((n, e[n].key) for n in names if n in e), tuple(sorted((k, v.key) for k, v in kw.items())), tuple(sorted((k, v.key) for k, v in (env or {}).items())))
        if ck in self.memo:
            return self.memo[ck]
        self.memo[ck] = O
        self.stack.append(g)
        try:
            if isinstance(g.node, ast.Lambda):
                r = self.ev(g.node.body, e, g)
            else:
                rets: list[V] = []
                gens: list[V] = []
                e["$gen"] = None  # type: ignore
                self.block(g.body, e, g, rets, gens)
                rr: Optional[V] = None
                for x in rets:
                    rr = join(rr, x)
                if gens:
                    el: Optional[V] = None
                    for x in gens:
                        el = join(el, x)
                    rr = lst(el or O)
                r = rr or O
        finally:
            self.stack.pop()
        self.memo[ck] = r
        return r

    def unknown(self, vs: list[V]) -> V:
        """something made from these values by means which are not known: no hazard is removed"""
        raw: Optional[frozenset] = None
        for v in vs:
            r = v.raw if v.kind != "l" else (v.elem.raw if v.elem else None)
            if r is not None:
                raw = r if raw is None else uni(raw, r)
        return O if raw is None else V("t", "X", False, raw)

    # ---------------------------------------------------------------- statements
    def block(self, body: list[ast.stmt], env: Env, f: Func, rets: list[V], gens: list[V]) -> bool:
        """false when the end is not reached"""
        for n in body:
            if not self.stmt(n, env, f, rets, gens):
                return False
        return True

    def merge(self, env: Env, *outs: Optional[Env]) -> None:
        live = [o for o in outs if o is not None]
        if not live:
            return
        keys = set().union(*[set(o) for o in live])
        for k in keys:
            v: Optional[V] = None
            for o in live:
                if k in o and o[k] is not None:
                    v = join(v, o[k])
            env[k] = v  # type: ignore

    def stmt(self, n: ast.stmt, env: Env, f: Func, rets: list[V], gens: list[V]) -> bool:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = next((h for h in self.p.funcs.values() if h.node is n), None)
            if g is not None:
                env[n.name] = V("f", fn=g)
            return True
        if isinstance(n, ast.Assign):
            v = self.ev(n.value, env, f)
            for t in n.targets:
                self.store(t, v, env, f, n)
            return True
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.store(n.target, self.ev(n.value, env, f), env, f, n)
            return True
        if isinstance(n, ast.AugAssign):
            cur = self.ev(n.target, env, f)
            v = self.ev(n.value, env, f)
            if isinstance(n.op, ast.Add):
                r = self.cat(cur, v, f, n) if cur.kind != "l" else self.extend(cur, v, f, n)
                if isinstance(n.target, ast.Subscript) and isinstance(n.target.value, ast.Name) and env.get(n.target.value.id) is not None and env[n.target.value.id].kind == "l":
                    L = env[n.target.value.id]
                    if v.const and '"""' in v.txt and L.doc:
                        if L.pe:
                            self.closing(f, n)
                        env[n.target.value.id] = replace(L, doc=False, pe=False)
                        return True
                self.store(n.target, r, env, f, n)
            return True
        if isinstance(n, ast.Expr):
            if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                v = self.ev(n.value.value, env, f) if n.value.value else O
                gens.append(v.elem or O if isinstance(n.value, ast.YieldFrom) and v.kind == "l" else v)
                return True
            self.ev(n.value, env, f)
            return True
        if isinstance(n, ast.Return):
            rets.append(self.ev(n.value, env, f) if n.value is not None else O)
            return False
        if isinstance(n, ast.Raise):
            return False
        if isinstance(n, (ast.Break, ast.Continue)):
            return False
        if isinstance(n, ast.If):
            a, b = Env(env), Env(env)
            ra = self.refine(n.test, True, a, f)
            rb = self.refine(n.test, False, b, f)
            self.ev(n.test, env, f)
            ea = self.block(n.body, a, f, rets, gens) if ra else False
            eb = self.block(n.orelse, b, f, rets, gens) if rb else False
            jumps_a = not ea and ra and isinstance(n.body[-1], (ast.Break, ast.Continue))
            jumps_b = bool(not eb and rb and n.orelse and isinstance(n.orelse[-1], (ast.Break, ast.Continue)))
            if jumps_a or jumps_b:
                env.setdefault("$jump", [])  # type: ignore
                for j, x in ((jumps_a, a), (jumps_b, b)):
                    if j:
                        env["$jump"] = V("o", args=frozenset())  # type: ignore
                        self.jumps.append(x)
            if not ea and not eb:
                return False
            self.merge(env, a if ea else None, b if eb else None)
            return True
        if isinstance(n, (ast.For, ast.AsyncFor)):
            return self.loop(n, env, f, rets, gens)
        if isinstance(n, ast.While):
            for _ in range(3):
                e2 = Env(env)
                self.refine(n.test, True, e2, f)
                self.block(n.body, e2, f, rets, gens)
                self.merge(env, Env(env), e2)
            return True
        if isinstance(n, ast.With):
            for i in n.items:
                v = self.ev(i.context_expr, env, f)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, v, env, f, n)
            return self.block(n.body, env, f, rets, gens)
        if isinstance(n, ast.Try):
            before = Env(env)
            ok = self.block(n.body + n.orelse, env, f, rets, gens)
            outs = [Env(env)] if ok else []
            for h in n.handlers:
                e2 = Env(before)
                self.merge(e2, Env(before), Env(env))
                if self.block(h.body, e2, f, rets, gens):
                    outs.append(e2)
            if not outs:
                return False
            self.merge(env, *outs)
            return self.block(n.finalbody, env, f, rets, gens)
        return True

    jumps: list[Env] = []

    def loop(self, n: ast.For, env: Env, f: Func, rets: list[V], gens: list[V]) -> bool:
        it = self.ev(n.iter, env, f)
        src = self.char_source(n.iter, env, f)
        if src is not None and self.char_loop(n, src, env, f):
            return True
        rows = n.iter
        if isinstance(rows, ast.Name):
            rows = self.constant_node(rows.id, f) or rows
        if isinstance(rows, ast.Call) and isinstance(rows.func, ast.Attribute) and rows.func.attr == "items" and not rows.args:
            d = rows.func.value
            d = self.constant_node(d.id, f) if isinstance(d, ast.Name) else d
            if isinstance(d, ast.Dict) and all(k is not None for k in d.keys):
                rows = ast.List(elts=[ast.Tuple(elts=[k, v]) for k, v in zip(d.keys, d.values)])
        if isinstance(rows, (ast.Tuple, ast.List)) and 0 < len(rows.elts) <= 12 and not any(isinstance(x, ast.Starred) for x in rows.elts) and not any(
                isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(n)):
            for row in rows.elts:  # a known sequence: one round for each of its elements
                if isinstance(row, (ast.Tuple, ast.List)) and isinstance(n.target, (ast.Tuple, ast.List)) and len(row.elts) == len(n.target.elts):
                    for t, x in zip(n.target.elts, row.elts):
                        self.store(t, self.ev(x, env, f), env, f, n)
                else:
                    self.store(n.target, self.ev(row, env, f), env, f, n)
                if not self.block(n.body, env, f, rets, gens):
                    return False
            return self.block(n.orelse, env, f, rets, gens)
        el = it.elem if it.kind == "l" and it.elem is not None else (replace(it, char=True) if it.raw is not None else O)
        for _ in range(3):
            saved, self.jumps = self.jumps, []
            e2 = Env(env)
            self.store(n.target, el, e2, f, n)
            ok = self.block(n.body, e2, f, rets, gens)
            outs = ([e2] if ok else []) + self.jumps
            self.jumps = saved
            self.merge(env, Env(env), *outs)
        self.block(n.orelse, env, f, rets, gens)
        return True

    def char_source(self, e: ast.AST, env: Env, f: Func) -> Optional[tuple[str, V]]:
        """('1' | '2' | 'i', text): a loop over the characters of a tainted text, over the pairs of them, or with their index"""
        def text(x: ast.AST) -> Optional[V]:
            if not isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)):
                return None
            v = self.ev(x, env, f)
            return v if v.kind == "t" and v.raw is not None else None
        t = text(e)
        if t is not None:
            return ("1", t)
        if isinstance(e, ast.Call) and e.args:
            t = text(e.args[0])
            if t is None:
                return None
            nm = ast.unparse(e.func).split(".")[-1]
            if nm == "enumerate":
                return ("i", t)
            if nm == "pairwise" or nm in ("zip", "zip_longest") and len(e.args) == 2:
                return ("2", t)
            ts, _ = self.p.callees(f.module, e)
            if len(ts) == 1 and any(isinstance(x, ast.Yield) and isinstance(x.value, ast.Tuple) and len(x.value.elts) == 2 for x in self.p.own_nodes(ts[0])):
                return ("2", t)
            if nm in ("list", "iter", "tuple"):
                return ("1", t)
        return None

    def char_loop(self, n: ast.For, src: tuple[str, V], env: Env, f: Func) -> bool:
        mode, t = src
        tg = n.target
        one = two = None
        if mode == "1" and isinstance(tg, ast.Name):
            one = tg.id
        elif mode == "2" and isinstance(tg, ast.Tuple) and all(isinstance(x, ast.Name) for x in tg.elts):
            one, two = tg.elts[0].id, tg.elts[1].id  # type: ignore
        elif mode == "i" and isinstance(tg, ast.Tuple) and isinstance(tg.elts[1], ast.Name):
            one = tg.elts[1].id
        if one is None:
            return False
        acc: set[str] = set()
        for x in ast.walk(n):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and any(isinstance(y, (ast.Name, ast.Constant)) for y in ast.walk(x.value)):
                acc.add(x.target.id)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append" and isinstance(x.func.value, ast.Name):
                acc.add(x.func.value.id)
        acc = {a for a in acc if env.get(a) is not None and (env[a].kind == "l" or env[a].kind == "t")}
        if len(acc) != 1:
            return False
        name = acc.pop()
        for x in ast.walk(n):  # reading one word: what is read is not text any more
            if isinstance(x, ast.If) and any(isinstance(y, ast.Attribute) and y.attr == "isspace" for y in ast.walk(x.test)) and any(isinstance(y, (ast.Break, ast.Return)) for b in (x.body, x.orelse) for z in b for y in ast.walk(z)):
                env[name] = V("t", "X")
                return True

        def run(c: str, d: str) -> set[str]:
            outs: set[str] = set()
            unknown: Any = object()
            local: dict[str, Any] = {}

            def ev(e: ast.AST) -> Any:
                if isinstance(e, ast.Constant):
                    return e.value
                if isinstance(e, ast.Name):
                    if e.id == one:
                        return c
                    if e.id == two:
                        return d
                    if e.id in local:
                        return local[e.id]
                    v = env.get(e.id)
                    return v.txt if v is not None and v.const else self.module_const(e.id, f, unknown)
                if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
                    xs = [ev(x) for x in e.elts]
                    return unknown if any(x is unknown for x in xs) else xs
                if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
                    a, b = ev(e.left), ev(e.right)
                    return a + b if isinstance(a, str) and isinstance(b, str) else unknown
                if isinstance(e, ast.JoinedStr):
                    xs = [v.value if isinstance(v, ast.Constant) else ev(v.value) for v in e.values]  # type: ignore
                    return "".join(xs) if all(isinstance(x, str) for x in xs) else unknown
                if isinstance(e, ast.IfExp):
                    b = ev(e.test)
                    return unknown if b is unknown else ev(e.body if b else e.orelse)
                if isinstance(e, ast.Compare) and len(e.ops) == 1:
                    a, b = ev(e.left), ev(e.comparators[0])
                    if a is unknown or b is unknown:
                        return unknown
                    op = e.ops[0]
                    try:
                        return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b}[type(op)]()
                    except Exception:
                        return unknown
                if isinstance(e, ast.BoolOp):
                    isor = isinstance(e.op, ast.Or)
                    un = False
                    for x in e.values:
                        v = ev(x)
                        if v is unknown:
                            un = True
                        elif bool(v) is isor:
                            return isor
                    return unknown if un else not isor
                if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                    v = ev(e.operand)
                    return unknown if v is unknown else not v
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get" and isinstance(e.func.value, (ast.Name, ast.Dict)) and len(e.args) == 2:
                    tb = ev(e.func.value)
                    k0, dflt = ev(e.args[0]), ev(e.args[1])
                    return unknown if tb is unknown or k0 is unknown else tb.get(k0, dflt)
                if isinstance(e, ast.Dict):
                    ks, vs = [ev(x) for x in e.keys if x is not None], [ev(x) for x in e.values]
                    return unknown if any(x is unknown for x in ks + vs) else dict(zip(ks, vs))
                return unknown

            def blk(body: list[ast.stmt], cur: str) -> list[tuple[str, bool]]:
                states = [(cur, True)]
                for s in body:
                    nxt: list[tuple[str, bool]] = []
                    for w, live in states:
                        if not live:
                            nxt.append((w, live))
                            continue
                        if isinstance(s, ast.If):
                            b = ev(s.test)
                            for val, bb in ((True, s.body), (False, s.orelse)):
                                if b is unknown or bool(b) is val:
                                    nxt += blk(bb, w)
                        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                            v = ev(s.value)
                            nxt.append((w + (v if isinstance(v, str) else c), True))
                        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" and ast.unparse(s.value.func.value) == name:
                            v = ev(s.value.args[0])
                            nxt.append((w + (v if isinstance(v, str) else c), True))
                        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                            local[s.targets[0].id] = ev(s.value)
                            nxt.append((w, True))
                        elif isinstance(s, (ast.Continue, ast.Break)):
                            nxt.append((w, False))
                        else:
                            nxt.append((w, True))
                    states = nxt
                return states
            for w, _live in blk(n.body, ""):
                outs.add(w)
            return outs
        self.rep.count("character_loops")
        raw = self.transducer(t.raw or frozenset(), run)
        cur = env[name]
        env[name] = lst(tainted(raw)) if cur.kind == "l" else tainted(raw)
        return True

    def constant_node(self, name: str, f: Func) -> Optional[ast.AST]:
        """the literal a name is bound to (once) in the function, or in its module"""
        for nodes in (list(self.p.own_nodes(f)), f.module.tree.body):
            vals = [x.value for x in nodes if isinstance(x, (ast.Assign, ast.AnnAssign)) and any(
                isinstance(t, ast.Name) and t.id == name for t in (x.targets if isinstance(x, ast.Assign) else [x.target]))]
            if vals:
                return vals[0] if len(vals) == 1 and isinstance(vals[0], (ast.Tuple, ast.List, ast.Dict)) else None
        return None

    def module_const(self, name: str, f: Func, unknown: Any) -> Any:
        for x in f.module.tree.body:
            if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and any(isinstance(t, ast.Name) and t.id == name for t in (x.targets if isinstance(x, ast.Assign) else [x.target])):
                try:
                    return ast.literal_eval(x.value)
                except Exception:
                    return unknown
        g: Optional[Func] = f
        while g is not None:
            vals = [x.value for x in self.p.own_nodes(g) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets)]
            if len(vals) == 1:
                try:
                    return ast.literal_eval(vals[0])
                except Exception:
                    return unknown
            g = g.parent
        return unknown

    def store(self, t: ast.AST, v: V, env: Env, f: Func, n: ast.AST) -> None:
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, v.elem or O if v.kind == "l" else v, env, f, n)
        elif isinstance(t, ast.Starred):
            self.store(t.value, v, env, f, n)
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            b = env.get(t.value.id)
            if b is not None and b.kind == "m":
                env[t.value.id] = self.put(b, t.attr, v)
            elif t.value.id == "self" and t.attr not in SOURCES:
                env["self." + t.attr] = v
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            b = env.get(t.value.id)
            if b is not None and b.kind == "m" and isinstance(t.slice, ast.Constant):
                env[t.value.id] = self.put(b, str(t.slice.value), v)
            elif b is not None and b.kind == "l":
                env[t.value.id] = replace(b, elem=join(b.elem, v))

    def put(self, m: V, k: str, v: V) -> V:
        d = dict(m.slots)
        d[k] = v
        return V("m", slots=tuple(sorted(d.items(), key=lambda x: x[0])))

    # ---------------------------------------------------------------- tests
    def refine(self, e: ast.AST, yes: bool, env: Env, f: Func) -> bool:
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, not yes, env, f)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) is yes:
                return all(self.refine(x, yes, env, f) for x in e.values)
            return True

        def upd(x: ast.AST, fun: Any) -> None:
            if isinstance(x, ast.Name) and env.get(x.id) is not None and env[x.id].raw is not None:
                env[x.id] = fun(env[x.id])

        def drop(x: ast.AST, hs: set[str]) -> None:
            upd(x, lambda v: replace(v, raw=frozenset(h for h in v.raw if h not in hs and not (h.startswith("r:") and "b" in hs))))
        if isinstance(e, ast.Name):
            if not yes:
                upd(e, lambda v: const(""))
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "endswith" and e.args and isinstance(e.args[0], ast.Constant):
            if not yes and e.args[0].value == '"':
                drop(e.func.value, {"e"})
            return True
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, op, b = e.left, e.ops[0], e.comparators[0]
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" and a.args and isinstance(b, ast.Constant) and isinstance(b.value, int):
                k = b.value
                empty = (isinstance(op, ast.Eq) and k == 0 and yes) or (isinstance(op, ast.Lt) and k == 1 and yes) or (isinstance(op, ast.LtE) and k == 0 and yes) or (
                    isinstance(op, ast.NotEq) and k == 0 and not yes) or (isinstance(op, ast.Gt) and k == 0 and not yes) or (isinstance(op, ast.GtE) and k == 1 and not yes)
                if empty:
                    upd(a.args[0], lambda v: const(""))
                elif isinstance(a.args[0], ast.Name) and ((isinstance(op, ast.Eq) and k == 1 and yes) or (isinstance(op, ast.LtE) and k == 1 and yes)):
                    drop(a.args[0], {"d"})
                return True
            if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(b, ast.Constant) and isinstance(b.value, str):
                same = isinstance(op, ast.Eq) is yes
                if same:
                    upd(a, lambda v: const(b.value))
                elif isinstance(a, ast.Name) and env.get(a.id) is not None and env[a.id].char:
                    drop(a, {"\\": {"b"}, '"': {"q", "Q", "d", "e"}, "\n": {"n"}}.get(b.value, set()))
                return True
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a, ast.Constant) and isinstance(a.value, str):
                if (isinstance(op, ast.In)) is not yes:
                    drop(b, {"\\": {"b"}, '"': {"q", "Q", "d", "e"}, '"""': {"d"}, "\n": {"n"}}.get(a.value, set()))
                return True
        return True

    # ---------------------------------------------------------------- expressions
    def ev(self, e: Optional[ast.AST], env: Env, f: Func) -> V:
        if e is None:
            return O
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, env, f)
        vs = [self.ev(c, env, f) for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
        return O if isinstance(e, (ast.Compare, ast.UnaryOp)) else self.unknown(vs)

    def e_Constant(self, e: ast.Constant, env: Env, f: Func) -> V:
        return const(e.value) if isinstance(e.value, str) else O

    def e_Name(self, e: ast.Name, env: Env, f: Func) -> V:
        v = env.get(e.id)
        if v is not None:
            return v
        u = self.module_const(e.id, f, None) if e.id.isupper() or e.id.startswith("_") else None
        return const(u) if isinstance(u, str) else O

    def e_Attribute(self, e: ast.Attribute, env: Env, f: Func) -> V:
        b = self.ev(e.value, env, f)
        if b.kind == "m":
            return dict(b.slots).get(e.attr, O)
        if e.attr in SOURCES:
            self.rep.count("reads_of_comments")
            return tainted(RAW)
        if e.attr in CODE:
            self.rep.count("reads_of_code")
            return tainted(frozenset({"n", "C"}))
        if e.attr == "comment" and not f.module.name.startswith("codemanip"):
            self.rep.count("reads_of_comments")
            return tainted(RAW)
        if isinstance(e.value, ast.Name) and e.value.id == "self" and env.get("self." + e.attr) is not None:
            return env["self." + e.attr]
        if isinstance(e.value, ast.Name) and env.get(e.value.id) is not None and env[e.value.id].raw is not None:
            return O
        full = self.p.full_name(f.module, e)
        for g in [g for g in self.p.funcs.values() if full and g.qual == full and "property" in g.decorators]:
            return self.call_func(g, [O], {})
        return O

    def e_Subscript(self, e: ast.Subscript, env: Env, f: Func) -> V:
        b = self.ev(e.value, env, f)
        if b.kind == "l":
            return b if isinstance(e.slice, ast.Slice) else (b.elem or O)
        if b.kind == "m":
            return dict(b.slots).get(e.slice.value, O) if isinstance(e.slice, ast.Constant) else self.unknown([v for _, v in b.slots])
        if b.raw is not None:
            if isinstance(e.slice, ast.Slice):
                if self.directive(e.slice, f):
                    return V("t", "X")
                if b.raw & {"x", "y"}:
                    return replace(b, raw=b.raw | {"b"} | ({"q", "d", "e"} if e.slice.lower is not None else set()))
                return b
            return tainted(frozenset(b.raw & {"n", "q", "b"}) | frozenset(h for h in b.raw if h.startswith("r:")), char=True)
        return b if b.const and isinstance(e.slice, ast.Slice) else O

    def directive(self, s: ast.Slice, f: Func) -> bool:
        """a slice up to a delimiter which is searched: code which the author of the comment wrote on purpose"""
        names = {x.id for x in ast.walk(s.upper) if isinstance(x, ast.Name)} if s.upper is not None else set()
        for x in self.p.own_nodes(f):
            if isinstance(x, (ast.Assign, ast.NamedExpr)):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                if any(isinstance(t, ast.Name) and t.id in names for t in ts):
                    for y in [z for z in ast.walk(x.value) if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and z.func.attr in ("find", "index", "rfind", "rindex")]:
                        if y.args and isinstance(y.args[0], ast.Constant) and isinstance(y.args[0].value, str) and re.search(r"[()<>:]", y.args[0].value):
                            self.rep.count("directives")
                            return True
        return False

    def e_JoinedStr(self, e: ast.JoinedStr, env: Env, f: Func) -> V:
        cur = const("")
        for x in e.values:
            if isinstance(x, ast.Constant):
                cur = self.cat(cur, const(str(x.value)), f, e)
            elif isinstance(x, ast.FormattedValue):
                v = self.ev(x.value, env, f)
                if x.conversion == 114:
                    v = V("t", "X")
                if v.kind == "l":
                    v = self.unknown([v])
                cur = self.cat(cur, v if v.kind == "t" else V("t", "X"), f, e)
        return cur

    def e_BinOp(self, e: ast.BinOp, env: Env, f: Func) -> V:
        a, b = self.ev(e.left, env, f), self.ev(e.right, env, f)
        if isinstance(e.op, ast.Add):
            return self.cat(a, b, f, e)
        if isinstance(e.op, ast.Mod) and a.const:
            items = [self.ev(x, env, f) for x in e.right.elts] if isinstance(e.right, ast.Tuple) else [b]
            return self.weave(re.split(r"%[-\d.]*[a-z]", a.txt), items, f, e)
        if isinstance(e.op, ast.Mult):
            return a if a.kind == "t" and not a.const else V("t", "X") if a.kind == "t" else replace(a) if a.kind == "l" else O
        return self.unknown([a, b])

    def weave(self, parts: list[str], items: list[V], f: Func, n: ast.AST) -> V:
        cur = const(parts[0])
        for x, s in zip(items, parts[1:]):
            cur = self.cat(cur, x if x.kind == "t" else V("t", "X"), f, n)
            cur = self.cat(cur, const(s), f, n)
        return cur

    def e_IfExp(self, e: ast.IfExp, env: Env, f: Func) -> V:
        a, b = Env(env), Env(env)
        self.refine(e.test, True, a, f)
        self.refine(e.test, False, b, f)
        self.ev(e.test, env, f)
        return join(self.ev(e.body, a, f), self.ev(e.orelse, b, f)) or O

    def e_BoolOp(self, e: ast.BoolOp, env: Env, f: Func) -> V:
        r: Optional[V] = None
        for x in e.values:
            r = join(r, self.ev(x, env, f))
        return r or O

    def e_NamedExpr(self, e: ast.NamedExpr, env: Env, f: Func) -> V:
        v = self.ev(e.value, env, f)
        env[e.target.id] = v
        return v

    def e_List(self, e: "ast.List | ast.Tuple", env: Env, f: Func) -> V:
        cur = V("l")
        for x in e.elts:
            if isinstance(x, ast.Starred):
                cur = self.extend(cur, self.ev(x.value, env, f), f, e)
            else:
                v = self.ev(x, env, f)
                cur = self.extend(cur, v if v.kind != "l" else lst(v.elem or O), f, e)
        return cur

    e_Tuple = e_Set = e_List

    def e_Dict(self, e: ast.Dict, env: Env, f: Func) -> V:
        d: dict[str, V] = {}
        for k, v in zip(e.keys, e.values):
            x = self.ev(v, env, f)
            if k is None and x.kind == "m":
                d.update(dict(x.slots))
            elif isinstance(k, ast.Constant):
                d[str(k.value)] = x
        return V("m", slots=tuple(sorted(d.items(), key=lambda x: x[0])))

    def e_Lambda(self, e: ast.Lambda, env: Env, f: Func) -> V:
        g = next((h for h in self.p.funcs.values() if h.node is e), None)
        return V("f", fn=g if g is not None else Func(f.qual + ".<lambda>", "<lambda>", f.module, None, e, f), env=env)

    def comp(self, e: Any, env: Env, f: Func, elt: ast.AST) -> V:
        e2 = Env(env)
        for g in e.generators:
            it = self.ev(g.iter, e2, f)
            el = it.elem if it.kind == "l" and it.elem is not None else (replace(it, char=True) if it.raw is not None else O)
            self.store(g.target, el, e2, f, e)
            for c in g.ifs:
                self.refine(c, True, e2, f)
        src = self.char_source(e.generators[0].iter, env, f) if len(e.generators) == 1 else None
        if src is not None and not isinstance(elt, ast.Name):
            loop = ast.For(target=e.generators[0].target, iter=e.generators[0].iter, body=[ast.AugAssign(target=ast.Name("$acc", ast.Store()), op=ast.Add(), value=elt)], orelse=[])
            ast.copy_location(loop, e)
            e3 = Env(env)
            e3["$acc"] = const("")
            if self.char_loop(loop, src, e3, f):
                return lst(e3["$acc"])
        return lst(self.ev(elt, e2, f))

    def e_ListComp(self, e: ast.ListComp, env: Env, f: Func) -> V:
        return self.comp(e, env, f, e.elt)

    e_GeneratorExp = e_SetComp = e_ListComp  # type: ignore

    def e_DictComp(self, e: ast.DictComp, env: Env, f: Func) -> V:
        return O

    def e_Starred(self, e: ast.Starred, env: Env, f: Func) -> V:
        return self.ev(e.value, env, f)

    def e_Call(self, e: ast.Call, env: Env, f: Func) -> V:
        fn = e.func
        args: list[V] = []
        for a in e.args:
            args.append(self.ev(a, env, f))
        kw = {k.arg or "**": self.ev(k.value, env, f) for k in e.keywords}
        allv = args + list(kw.values())
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        base = self.ev(fn.value, env, f) if isinstance(fn, ast.Attribute) else None
        if name in VERBATIM and isinstance(fn, ast.Attribute):
            self.rep.count("reads_of_code")
            return tainted(frozenset({"n", "C"}))
        # functions held in names
        if isinstance(fn, ast.Name) and env.get(fn.id) is not None and env[fn.id].kind == "f":
            return self.apply(env[fn.id], args, kw, env)
        # a table used to fill the slots of a template
        tables = [v for v in allv if v.kind == "m" and any(x.raw is not None for _, x in v.slots)]
        if tables:
            tmpl = next((v for v in allv if v.kind == "t" and "{" in v.txt), None)
            if tmpl is not None:
                return self.fill(tmpl, tables, f, e)
            if name in ("Munch", "dict"):
                return tables[0]
            return self.unknown([x for t in tables for _, x in t.slots])
        if name in ("Munch", "dict") and not args:
            return V("m", slots=tuple(sorted(kw.items(), key=lambda x: x[0])))
        # methods of texts and lists
        if base is not None and (base.kind in ("t", "l")):
            r = self.text_method(base, name, args, kw, e, env, f)
            if r is not None:
                return r
        # builtins
        if isinstance(fn, ast.Name) or (isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ("itertools", "json", "textwrap", "builtins")):
            r = self.builtin(name, args, e, env, f)
            if r is not None:
                return r
        full = self.p.full_name(f.module, fn) if isinstance(fn, (ast.Name, ast.Attribute)) else None
        if full in ("re.sub", "re.subn") and len(args) >= 3 and args[2].raw is not None:
            if args[0].const and args[1].const:
                return tainted(self.regex(args[2].raw, args[0].txt, args[1].txt))
            return args[2]
        if full and full.startswith("re.") and name not in ("split", "escape"):
            return lst(O) if name in ("findall", "finditer") else O
        ts, _ext = self.p.callees(f.module, e)
        ts = [t for t in ts if not t.module.name.startswith(("litgen.tests", "litgen.demo", "srcmlcpp.tests"))]
        hot = any(v.raw is not None or (v.kind == "l" and v.elem is not None and v.elem.raw is not None) for v in allv)
        if ts and len(ts) <= 8:
            r2: Optional[V] = None
            for t in ts:
                a2 = list(args)
                if t.cls is not None and not t.is_static and isinstance(fn, ast.Attribute):
                    a2 = [O] + a2
                if hot or self.returns_text(t):
                    r2 = join(r2, self.call_func(t, a2, {k: v for k, v in kw.items() if k != "**"}))
            if r2 is not None:
                texts = [v for v in allv if v.const and ("\n" in v.txt or "{" in v.txt)]
                if r2.raw is None and not r2.const and len(texts) == 1 and not hot and r2.kind != "l":
                    return texts[0]
                if len(texts) == 0 and not hot and r2.raw is None and r2.kind == "t" and len([v for v in allv if v.kind == "t" and not v.const and v.txt != "X"]) == 1:
                    return next(v for v in allv if v.kind == "t" and not v.const and v.txt != "X")
                return r2
            return O
        if name in NEUTRAL:
            return O
        return self.unknown(allv)

    def returns_text(self, t: Func) -> bool:
        if t.name.startswith("__"):
            return False
        if not t.module.name.startswith(("litgen.internal", "codemanip", "srcmlcpp.cpp_types.base.cpp_element_comments", "srcmlcpp.cpp_types.base.cpp_comment")):
            return False
        r = getattr(t.node, "returns", None)
        return r is None or "str" in ast.unparse(r)

    def apply(self, fv: V, args: list[V], kw: dict[str, V], env: Env) -> V:
        g = fv.fn
        outer = Env({k: v for k, v in (fv.env or env).items() if v is not None and not k.startswith("$")})
        return self.call_func(g, args, kw, outer)

    def fill(self, tmpl: V, tables: list[V], f: Func, n: ast.AST) -> V:
        left: Optional[frozenset] = None
        for t in tables:
            for k, v in t.slots:
                if v.raw is None:
                    continue
                for m in re.finditer(re.escape("{" + k + "}"), tmpl.txt):
                    ctx = context(tmpl.txt[: m.start()])
                    if ctx == "com" or ctx and not code(v):
                        self.check(v.raw, ctx, f, n)
                    elif not ctx:
                        left = v.raw if left is None else uni(left, v.raw)
        return V("t", "X", False, left)

    def text_method(self, b: V, name: str, args: list[V], kw: dict[str, V], e: ast.Call, env: Env, f: Func) -> Optional[V]:
        if b.kind == "l":
            if name in ("append", "extend", "insert", "appendleft"):
                v = args[-1] if args else O
                if name == "extend" and v.kind != "l":
                    v = lst(v)
                new = self.extend(b, v, f, e)
                t = e.func.value  # type: ignore
                if isinstance(t, ast.Name):
                    env[t.id] = new
                return O
            if name in ("copy",):
                return b
            if name == "pop":
                return b.elem or O
            return O
        if name == "join":
            it = args[0] if args else O
            el = it.elem if it.kind == "l" and it.elem is not None else it
            if el.raw is not None:
                raw = el.raw
                if b.const and "\n" in b.txt and "s" not in raw:
                    raw = raw | {"n"}
                return tainted(frozenset(raw - {"s"}))
            if it.kind == "l" and it.doc:
                return V("t", "X")
            return V("t", "X" if el.kind != "t" else el.txt)
        if name == "format" and b.const:
            items = args + list(kw.values())
            if any(v.raw is not None for v in items):
                parts = re.split(r"\{[^{}]*\}", b.txt)
                return self.weave(parts, args if len(args) == len(parts) - 1 else [self.unknown(items)] * (len(parts) - 1), f, e)
            return V("t", b.txt)
        if b.raw is None:
            if b.const and name in ("replace", "strip", "lstrip", "rstrip", "lower", "format"):
                return b
            if name in ("split", "splitlines", "partition", "rsplit"):
                return lst(V("t", "X"))
            if name in KEEP or name == "replace":
                return V("t", b.txt)
            return None if name not in TEXTLIKE else O
        if name == "replace" and len(args) >= 2:
            if args[0].const and args[1].const:
                return replace(b, raw=self.sub(b.raw, args[0].txt, None, args[1].txt))
            return b
        if name in ("split", "splitlines", "rsplit", "partition", "rpartition"):
            lines = name == "splitlines" or (name == "split" and (not args or (args[0].const and args[0].txt == "\n")))
            return lst(replace(b, raw=b.raw | {"s"} if lines and "n" not in b.raw else b.raw - {"n"} if lines else b.raw - {"s"}))
        if name in ("strip", "rstrip"):
            return replace(b, raw=b.raw | ({"e"} if "q" in b.raw else set()))
        if name in KEEP:
            return b
        if name in TEXTLIKE:
            return O
        if name == "format":
            return self.unknown([b] + args)
        return replace(b)

    def builtin(self, name: str, args: list[V], e: ast.Call, env: Env, f: Func) -> Optional[V]:
        if name in ("str", "cast", "deepcopy", "copy"):
            return args[-1] if args else O
        if name in ("repr", "ascii", "dumps"):
            return V("t", "X")
        if name in NEUTRAL:
            return O
        if name in ("list", "tuple", "sorted", "reversed", "set", "iter", "chain", "islice"):
            if not args:
                return V("l")
            a = args[0]
            for x in args[1:]:
                if x.kind == "l":
                    a = self.extend(a if a.kind == "l" else lst(a), x, f, e)
            return a if a.kind == "l" else lst(replace(a, char=True)) if a.raw is not None else lst(O)
        if name in ("map", "filter", "dropwhile", "takewhile"):
            if len(args) < 2:
                return O
            el = args[1].elem or O if args[1].kind == "l" else args[1]
            if name != "map":
                return args[1]
            if args[0].kind == "f":
                return lst(self.apply(args[0], [el], {}, env))
            if isinstance(e.args[0], (ast.Name, ast.Attribute)):
                fake = ast.Call(func=e.args[0], args=[], keywords=[])
                ast.copy_location(fake, e)
                ts, _ = self.p.callees(f.module, fake)
                r: Optional[V] = None
                for t in ts:
                    r = join(r, self.call_func(t, [el], {}))
                return lst(r if r is not None else el)
            return lst(el)
        if name in ("enumerate", "zip", "overlapping_pairs", "pairwise"):
            el: Optional[V] = None  # type: ignore
            for a in args:
                el = join(el, a.elem if a.kind == "l" and a.elem is not None else a)
            return lst(el or O)
        if name == "next":
            return args[0].elem or O if args and args[0].kind == "l" else O
        if name in ("indent", "dedent", "fill"):
            return args[0] if args else O
        return None


OUTPUT = {"stub_lines", "pydef_lines", "str_stub", "str_pydef", "glue_lines"}


def run(p: Project, tier: str) -> Report:
    rep = Report("C17", "the text of the comments has no hazard (line break, quote, backslash) for the place where it is put, and is put nowhere else in the generated code")
    I = Interp(p, rep)
    fs = [f for f in p.all_funcs() if f.module.name.startswith("litgen.internal") and f.parent is None and not isinstance(f.node, ast.Lambda)]
    for f in fs:
        a = f.node.args  # type: ignore
        r = I.call_func(f, [], {})
        rep.count("functions_interpreted")
        if f.name in OUTPUT:
            rep.count("writers_of_lines")
            el = r.elem if r.kind == "l" and r.elem is not None else r
            if el.raw is not None and not code(el):
                rep.add("raw", f.qual, f.loc(f.node), "the text of a comment may reach the generated code as it is: in no comment, docstring or literal")
    rep.count("summaries", len(I.memo))
    rep.count("places_where_text_lands", len(I.sites))
    for q, line, ctx in sorted(I.sites):
        rep.sample(f"{q}:{line}: text put in {ctx}", 40)
    rep.need("places_where_text_lands", 8)
    rep.need("reads_of_comments", 5)
    rep.need("writers_of_lines", 10)
    rep.assumptions = ["the replacements of the options replace words by words", "texts which are not produced from comments are not considered"]
    return rep
