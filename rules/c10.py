"""C10: generated code never contains an unfilled template slot.

Template fillers are recognised by what they do (a function (text, mapping) that turns "a{zz}b" and {"zz": "Q"} into "aQb"), constant propagation of their
own source (vlib/ceval.py) answers for them. Each library function which fills a template, or which handles a text with a `{slot}`, is interpreted path by path
(vlib/trans.py): texts are sequences of known characters and of opaque values, replacement tables are maps built key by key. For each path:
(slot)    no slot of the template is left in the text which leaves the function (returned, appended, stored)
(rescan)  no text which already holds an opaque value (a comment, a default value, a name of the user) is given to a filler as a template
(absent)  a value which may be None is not given to a filler which inserts it, and never formatted into an f-string
For the fillers themselves:
(filler)  every occurrence is filled, values are inserted verbatim (they are not searched for slots again, and are no regular expression), the lines of absent
          values, and only them, are removed, separators are written between the lines that remain"""
from __future__ import annotations

import ast
import copy
import re
from typing import Any, Optional

from rules.c15 import library
from vlib.ceval import CEval, Raised, Unknown
from vlib.project import Func, Project
from vlib.report import Report
from vlib.trans import Explosion, State, Trans, Val, cat, k, sy, tup

TECHNIQUE = "path-sensitive abstract interpretation of the code that builds templates and replacement tables (texts as known characters and opaque values), constant propagation through the source of the template fillers"
LEVEL_NOTE = "Slots are `{identifier}` texts of constants; a table whose keys are not constants is undecided (counted). Texts built with `%` and `str.format` are left to the interpreter of Python."

SLOT = re.compile(r"\{[A-Za-z_]\w*\}")
L, R = "\ue000", "\ue001"
PH = re.compile(f"{L}(\\d+){R}")


def slots(s: str) -> list[str]:
    return SLOT.findall(s)


class Fillers:
    """functions (text, mapping, ...) -> text that fill slots, by probing their source with constants"""

    def __init__(self, p: Project):
        self.p = p
        self.maps: dict[Func, dict[str, bool]] = {}   # parameter -> accepts None (line removal)
        self.template: dict[Func, str] = {}
        for f in p.funcs.values():
            if not library(f) or isinstance(f.node, ast.Lambda) or f.parent is not None or len(f.params) < 2 or any(isinstance(x, (ast.Yield,)) for x in p.own_nodes(f)):
                continue
            ann = {a.arg: ast.unparse(a.annotation) if a.annotation is not None else "" for a in f.node.args.posonlyargs + f.node.args.args}
            names = [a for a in f.params if not (f.cls is not None and not f.is_static and a == f.params[0])]
            ms = [a for a in names if re.search(r"\bdict\b|Dict|Mapping|Munch", ann.get(a, ""))]
            ts = [a for a in names if ann.get(a, "") == "str"]
            if not ms or not ts or f.cls is not None and not f.is_static:
                continue
            t = ts[0]
            got: dict[str, bool] = {}
            for m in ms:
                others = {x: {} for x in ms if x != m and x not in self.optional(f)}
                if self.ask(f, {t: "a{zz}b", m: {"zz": "Q"}, **others}) == "aQb":
                    got[m] = self.ask(f, {t: "a\nx{zz}y\nb", m: {"zz": None}, **others}) == "a\nb"
            if got:
                self.maps[f] = got
                self.template[f] = t

    def optional(self, f: Func) -> set[str]:
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        return set(pos[len(pos) - len(a.defaults):]) | {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}

    def ask(self, f: Func, kw: dict[str, Any]) -> Any:
        try:
            return CEval(self.p).call(f, **kw)
        except Raised as x:
            return f"an exception ({x.name})"
        except (Unknown, RecursionError):
            return None

    def audit(self, rep: Report) -> None:
        for f, maps in self.maps.items():
            rep.count("template fillers")
            t = self.template[f]
            for m, none in maps.items():
                others = {x: {} for x in maps if x != m and x not in self.optional(f)}

                def check(what: str, text: str, table: dict, want: str, **more: Any) -> None:
                    rep.count("obligations on fillers")
                    got = self.ask(f, {t: text, m: dict(table), **others, **more})
                    if got is not None and got != want:
                        rep.add("filler", f"{f.qual}.{m}:{what}", f.loc(), f"{what}: {text!r} with {table!r} gives {got!r} instead of {want!r}")
                check("every occurrence is filled", "{zz}-{zz}\n{zz}", {"zz": "Q"}, "Q-Q\nQ")
                check("every key is filled", "{a}-{b}-{ab}", {"a": "1", "b": "2", "ab": "3"}, "1-2-3")
                check("values are inserted verbatim (not searched for slots)", "{a}|{b}", {"a": "{b}", "b": "{a}"}, "{b}|{a}")
                check("values are inserted verbatim (not a regular expression template)", "{a}.", {"a": "\\1\\n\\g<0>$&"}, "\\1\\n\\g<0>$&.")
                check("keys are no regular expression", "{a}{aXb}", {"a": "1"}, "1{aXb}")
                check("the rest of the text is kept", "x{ a } {} {{a}}\n\n  y", {"a": "1"}, "x{ a } {} {1}\n\n  y")
                check("an empty value is a value", "a\nx{zz}y\nb", {"zz": ""}, "a\nxy\nb")
                check("a value on several lines is kept whole", "a\nx{zz}y\nb", {"zz": "1\n2"}, "a\nx1\n2y\nb")
                if none:
                    check("each line of an absent value is removed", "a\n{zz}\nb\n {zz}{b}\n{b}c", {"zz": None, "b": "Q"}, "a\nb\nQc")
                    check("each absent value removes its lines", "a\n{zz}\nb\n {yy}{b}\n{b}c", {"zz": None, "yy": None, "b": "Q"}, "a\nb\nQc")
                    check("a line is removed for its own slot, not for a text that looks like it", "a\n{b}\nc", {"b": "{zz}", "zz": None}, "a\n{zz}\nc")
                # pairs of tables: a value of one is not searched for the slots of the other
                for m2, none2 in maps.items():
                    if m2 == m:
                        continue
                    check(f"values are not searched for the slots of `{m2}`", "{a}\n{b}", {"a": "{b}"}, "{b}\nQ", **{m2: {"b": "Q"}})
                    if none2:
                        check(f"values do not remove lines of `{m2}`", "x{a}\n{b}\ny", {"a": "{b}"}, "x{b}\ny", **{m2: {"b": None}})
            # separators which the filler writes by itself
            self.separators(f, maps, rep)

    def separators(self, f: Func, maps: dict[str, bool], rep: Report) -> None:
        t = self.template[f]
        lines = next((m for m, none in maps.items() if none), None)
        others = {x: {} for x in maps if x not in self.optional(f) and x != lines}
        word = "maybe_comma"
        if lines is None or self.ask(f, {t: "f(a{%s})" % word, lines: {}, **others}) in (None, "f(a{%s})" % word):
            return
        import itertools
        for present in itertools.product((True, False), repeat=3):
            table = {n: (n.upper() if x else None) for n, x in zip("abc", present)}
            text = "{a}{%s}\n{b}{%s}\n{c}{%s}" % (word, word, word)
            got = self.ask(f, {t: text, lines: table, **others})
            if got is None:
                continue
            rep.count("obligations on fillers")
            want = [n.upper() for n, x in zip("abc", present) if x]
            have = [x.strip() for x in got.split(",")] if got.strip() else []
            if have != want:
                rep.add("filler", f"{f.qual}:separators", f.loc(), f"separators: {text!r} with {table!r} gives {got!r}: the items are {have} instead of {want}")
        got = self.ask(f, {t: "{a}", lines: {"a": "{%s}" % word}, **others})
        if got is not None and got != "{%s}" % word:
            rep.add("filler", f"{f.qual}:separators in values", f.loc(), f"a value with the text {{{word}}} is altered: {got!r}")


class Fill(Trans):
    def __init__(self, rule: "Rule", **kw: Any):
        super().__init__(rule.p, **kw)
        self.rule = rule
        self.coarse = False
        self.table: dict[str, int] = {}
        self.terms: list[Val] = []

    # ---- placeholders for opaque values
    def ph(self, v: Val) -> str:
        if v.key not in self.table:
            self.table[v.key] = len(self.terms)
            self.terms.append(v)
        return f"{L}{self.table[v.key]}{R}"

    def text(self, v: Val) -> Optional[str]:
        """text with placeholders; None when the value is no text"""
        if v.kind == "k":
            return v.data if isinstance(v.data, str) else None
        if v.kind == "cat":
            return "".join(x.data if x.kind == "k" and isinstance(x.data, str) else self.ph(x) for x in v.data)
        if v.kind == "val":
            return self.ph(v)
        return None

    def back(self, s: str) -> Val:
        parts: list[Val] = []
        last = 0
        for m in PH.finditer(s):
            parts.append(k(s[last:m.start()]))
            parts.append(self.terms[int(m.group(1))])
            last = m.end()
        parts.append(k(s[last:]))
        return cat(*parts)

    def known(self, v: Val) -> bool:
        return v.kind == "k" or v.kind == "cat" and all(x.kind == "k" or self.rule.harmless(x) for x in v.data) or self.rule.harmless(v)

    # ---- maps
    def is_map(self, v: Val, s: State) -> bool:
        return v.kind == "ref" and s.heap.get(v.data, ("",))[0] == "obj" and s.heap[v.data][1] == "map"

    def new_map(self, e: ast.AST, s: State, d: dict[str, Val]) -> Val:
        i = self.fresh_heap(e, s)
        s.heap[i] = ("obj", "map", d)
        return Val("ref", i)

    def merge_into(self, d: dict[str, Val], v: Val, s: State) -> None:
        if self.is_map(v, s):
            d.update(s.heap[v.data][2])
        else:
            d["*"] = v

    def e_Dict(self, e: ast.Dict, st: State, fr: int, f: Func) -> list:
        out = []
        for vs, s in self.evs([x for kk, v in zip(e.keys, e.values) for x in ([kk] if kk is not None else []) + [v]], st, fr, f):
            d: dict[str, Val] = {}
            it = iter(vs)
            for kk in e.keys:
                if kk is None:
                    self.merge_into(d, next(it), s)
                else:
                    a, v = next(it), next(it)
                    d[a.data if a.kind == "k" and isinstance(a.data, str) else "*"] = v
            out.append((self.new_map(e, s, d), s))
        return out

    def e_DictComp(self, e: ast.DictComp, st: State, fr: int, f: Func) -> list:
        g = e.generators[0]
        it = g.iter
        if len(e.generators) == 1 and isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and not it.args and isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2:
            res = []
            for b, s in self.ev(it.func.value, st, fr, f):
                if not self.is_map(b, s):
                    res += self.comp(e, s, fr, f)
                    continue
                inner = self.fresh()
                self.parents[inner] = fr
                s.frames[inner] = {}
                cur: list[tuple[dict[str, Val], State]] = [({}, s)]
                for key, v in s.heap[b.data][2].items():
                    nx = []
                    for d, s2 in cur:
                        self.assign(g.target, tup((k(key), v)), s2, inner, f)
                        live, dead = [s2], []
                        for c in g.ifs:
                            l2 = []
                            for s3 in live:
                                for ok, s4 in self.test(c, s3, inner, f):
                                    (l2 if ok else dead).append(s4)
                            live = l2
                        nx += [(d, s3) for s3 in dead]
                        for s3 in live:
                            for (kv, vv), s4 in [((a, b2), s5) for a, s45 in self.ev(e.key, s3, inner, f) for b2, s5 in self.ev(e.value, s45, inner, f)]:
                                nx.append(({**d, (kv.data if kv.kind == "k" and isinstance(kv.data, str) else "*"): vv}, s4))
                    cur = nx
                for d, s2 in cur:
                    s2.frames.pop(inner, None)
                    res.append((self.new_map(e, s2, d), s2))
            return res
        return self.comp(e, st, fr, f)

    def assign(self, t: ast.expr, v: Val, st: State, fr: int, f: Func) -> None:
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            b = self.ev(t.value, st, fr, f)[0][0]
            if self.is_map(b, st):
                i = self.ev(t.slice, st, fr, f)[0][0]
                self.setattr(b, i.data if i.kind == "k" and isinstance(i.data, str) else "*", v, st, t)
                return
        super().assign(t, v, st, fr, f)

    def setattr(self, b: Val, attr: str, v: Val, st: State, node: ast.AST) -> None:
        super().setattr(b, attr, v, st, node)
        if self.is_map(b, st):
            st.events = st.events[:-1]

    def e_Subscript(self, e: ast.Subscript, st: State, fr: int, f: Func) -> list:
        out = []
        if isinstance(e.slice, ast.Slice):
            for b, s in self.ev(e.value, st, fr, f):
                t = self.text(b)
                if t is None or b.kind == "sy":
                    out += super().e_Subscript(e, st, fr, f)
                    break
                bounds = []
                for x in (e.slice.lower, e.slice.upper, e.slice.step):
                    v = self.ev(x, s, fr, f)[0][0] if x is not None else k(None)
                    bounds.append(v.data if v.kind == "k" else "?")
                if "?" in bounds:
                    out.append((cat(b, sy("...")), s))
                else:
                    marks = re.split(f"({L}\\d+{R})", t)
                    chars = [c for i, m in enumerate(marks) for c in ([m] if i % 2 else list(m))]
                    out.append((self.back("".join(chars[slice(*bounds)])), s))
            return out
        for b, s in self.ev(e.value, st, fr, f):
            if self.is_map(b, s):
                for i, s2 in self.ev(e.slice, s, fr, f):
                    out.append((self.getattr(b, str(i.data), s2) if i.kind == "k" else sy(f"{b.key}[{i.key}]"), s2))
            else:
                return super().e_Subscript(e, st, fr, f)
        return out

    def e_JoinedStr(self, e: ast.JoinedStr, st: State, fr: int, f: Func) -> list:
        r = super().e_JoinedStr(e, st, fr, f)
        for v, s in r:
            for x in (v.data if v.kind == "cat" else (v,)):
                if x == k(None) or self.rule.maybe_none(x, s):
                    self.rule.absent(e, f)
        return r

    # ---- calls
    def call(self, e: ast.Call, b: Optional[Val], args: list[Val], kw: dict[str, Val], s: State, fr: int, f: Func) -> list:
        name = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
        full = self.p.full_name(f.module, e.func) or name if isinstance(e.func, (ast.Name, ast.Attribute)) else ""
        if full.split(".")[-1] in ("Munch", "DefaultMunch") or full in ("dict", "builtins.dict"):
            d: dict[str, Val] = {}
            for a in args:
                self.merge_into(d, a, s)
            for n, v in kw.items():
                if n == "**":
                    self.merge_into(d, v, s)
                else:
                    d[n] = v
            return [(self.new_map(e, s, d), s)]
        if b is not None and self.is_map(b, s):
            h = s.heap[b.data]
            d = dict(h[2])
            if name == "update":
                for a in args:
                    self.merge_into(d, a, s)
                for n, v in kw.items():
                    if n == "**":
                        self.merge_into(d, v, s)
                    else:
                        d[n] = v
                s.heap[b.data] = ("obj", "map", d)
                return [(k(None), s)]
            if name in ("copy", "toDict"):
                return [(self.new_map(e, s, d), s)]
            if name == "setdefault" and len(args) == 2 and args[0].kind == "k":
                d.setdefault(args[0].data, args[1])
                s.heap[b.data] = ("obj", "map", d)
                return [(d[args[0].data], s)]
            if name in ("pop", "__delitem__") and args and args[0].kind == "k":
                v = d.pop(args[0].data, k(None))
                s.heap[b.data] = ("obj", "map", d)
                return [(v, s)]
            if name == "get" and args and args[0].kind == "k" and args[0].data in d:
                return [(d[args[0].data], s)]
        if b is None and name == "setattr" and len(args) == 3 and self.is_map(args[0], s):
            self.setattr(args[0], args[1].data if args[1].kind == "k" and isinstance(args[1].data, str) else "*", args[2], s, e)
            return [(k(None), s)]
        targets, _ = self.p.callees(f.module, e)
        if len(targets) == 1 and targets[0] in self.rule.fillers.maps:
            r = self.fill(targets[0], e, args, kw, s, f)
            if r is not None:
                return [(r, s)]
        if len(targets) == 1 and targets[0] not in self.rule.fillers.maps:
            r = self.constant_call(targets[0], e, args, kw, f)
            if r is not None:
                return [(r, s)]
        if b is not None and not targets and name in ("replace", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "splitlines", "format", "join", "upper", "lower"):
            t = self.text(b)
            if t is not None and name in ("strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "replace"):
                ts = [self.text(a) if a.kind in ("k", "cat") else self.ph(a) for a in args]
                if all(x is not None for x in ts) and not kw:
                    if name == "replace" and args and args[0].kind == "k" and SLOT.search(str(args[0].data)):
                        self.rule.rescan(b, e, f, self)
                    try:
                        return [(self.back(getattr(t, name)(*ts)), s)]
                    except (TypeError, ValueError):
                        pass
            if t is not None and name == "format" and not PH.search(t) and "**" not in kw:
                try:
                    return [(self.back(t.format(*[self.text(a) if a.kind in ("k", "cat") else self.ph(a) for a in args], **{n: self.text(a) if a.kind in ("k", "cat") else self.ph(a) for n, a in kw.items()})), s)]
                except (KeyError, IndexError, ValueError, AttributeError):
                    pass
        if b is not None and not targets and name in ("split", "splitlines", "rsplit", "partition") and (t := self.text(b)) is not None and SLOT.search(t):
            i = self.fresh_heap(e, s)
            s.heap[i] = ("list", (b,))
            return [(Val("ref", i), s)]
        r2 = super().call(e, b, args, kw, s, fr, f)
        if targets:
            for v, _ in r2:
                if v.kind == "sy":
                    self.rule.origin.setdefault(v.key, targets[0])
        return r2

    def constant_call(self, g: Func, e: ast.Call, args: list[Val], kw: dict[str, Val], f: Func) -> Optional[Val]:
        """a function of the library over texts, given at least one known text"""
        if g.cls is not None and not g.is_static or isinstance(g.node, ast.Lambda) or g.parent is not None or not args and not kw:
            return None
        ret = ast.unparse(g.node.returns) if g.node.returns is not None else ""
        if ret != "str" or "**" in kw:
            return None
        vals = list(args) + list(kw.values())
        texts = [v for v in vals if v.kind in ("k", "cat") and self.text(v) is not None]
        if not texts or not any(self.multi(v) for v in texts):
            return None

        def conv(v: Val) -> Any:
            if v.kind == "k":
                return v.data
            t = self.text(v)
            if t is not None:
                return t
            if v.kind == "sy":
                return self.ph(v)
            raise Unknown("value")
        try:
            r = self.rule.evaluate(g, tuple(conv(a) for a in args), {n: conv(v) for n, v in kw.items()})
        except Unknown:
            return None
        return self.back(r) if isinstance(r, str) else None

    def multi(self, v: Val) -> bool:
        t = self.text(v) or ""
        return "{" in t or "\n" in t

    def fill(self, g: Func, e: ast.Call, args: list[Val], kw: dict[str, Val], s: State, f: Func) -> Optional[Val]:
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        bound: dict[str, Val] = dict(zip(names, args))
        bound.update({n: v for n, v in kw.items() if n != "**"})
        tmpl = bound.get(self.rule.fillers.template[g])
        if tmpl is None:
            return None
        self.rule.seen_site(e, f)
        t = self.text(tmpl)
        if t is None or t == "" or PH.fullmatch(t):
            self.rule.undecided(e, f, "the template is not known")
            return None
        self.rule.rescan(tmpl, e, f, self)
        vals: dict[str, Any] = {self.rule.fillers.template[g]: t}
        for n, v in bound.items():
            if n in self.rule.fillers.maps[g]:
                if v == k(None):
                    vals[n] = None
                    continue
                if not self.is_map(v, s) or "*" in s.heap[v.data][2]:
                    self.rule.undecided(e, f, "the keys of the table are not known")
                    return None
                d: dict[str, Any] = {}
                for key, x in s.heap[v.data][2].items():
                    if x == k(None):
                        d[key] = None
                        if not self.rule.fillers.maps[g][n] and "{" + key + "}" in t:
                            self.rule.absent(e, f, key)
                            d[key] = "None"
                    elif x.kind == "k" and isinstance(x.data, str) and "{" not in x.data:
                        d[key] = x.data
                    elif x.kind == "cat":
                        d[key] = "".join(y.data if y.kind == "k" and isinstance(y.data, str) and "{" not in y.data else self.ph(y) for y in x.data)
                    else:
                        d[key] = self.ph(x)
                        if self.rule.maybe_none(x, s) and not self.rule.fillers.maps[g][n] and "{" + key + "}" in t:
                            self.rule.absent(e, f, key)
                vals[n] = d
                self.rule.rep.count("slots given a value", len(d))
            elif n not in vals:
                ann = next((ast.unparse(x.annotation) for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg == n and x.annotation is not None), "")
                if v.kind != "k" and ann != "bool":
                    self.rule.undecided(e, f, f"the argument {n} is not known")
                    return None
                vals[n] = v.data if v.kind == "k" else "?"
        import itertools
        free = [n for n, v in vals.items() if v == "?"]
        rs = [self.rule.evaluate(g, (), {**vals, **dict(zip(free, c))}) for c in itertools.product((True, False), repeat=len(free))]
        r = max(rs, key=lambda x: len(slots(x)) if isinstance(x, str) else 99)
        if not isinstance(r, str):
            self.rule.undecided(e, f, "the filler could not be evaluated")
            return None
        self.rule.filled(e, f, slots(r))
        self.rule.consumed |= set(slots(t)) - set(slots(r))
        if self.coarse:
            v = self.back(r)
            known = "".join(x.data for x in (v.data if v.kind == "cat" else (v,)) if x.kind == "k" and isinstance(x.data, str))
            rest = [x for x in (v.data if v.kind == "cat" else (v,)) if not (x.kind == "k" and isinstance(x.data, str))]
            keep = [x for x in rest if not self.rule.harmless(x)][:1] or rest[:1]
            return cat(k("\n" + "\n".join(slots(known)) + "\n..\n"), *keep)
        return self.back(r)

    def merge(self, sts: list[State]) -> list[State]:
        if self.coarse and len(self.stack) == 1:  # what is no longer reachable does not tell two states apart
            for s in sts:
                seen: set[int] = set()
                todo = [v for d in s.frames.values() for v in d.values()] + list(s.store.values())
                while todo:
                    v = todo.pop()
                    if v.kind in ("cat", "tup"):
                        todo += list(v.data)
                    elif v.kind == "ref" and v.data not in seen:
                        seen.add(v.data)
                        h = s.heap.get(v.data, ("",))
                        todo += list(h[1]) if h[0] == "list" else list(h[2].values()) if h[0] == "obj" else []
                s.heap = {i: h for i, h in s.heap.items() if i in seen}
        return super().merge(sts)


class Rule:
    def __init__(self, p: Project, rep: Report):
        self.p, self.rep = p, rep
        self.fillers = Fillers(p)
        self.origin: dict[str, Func] = {}
        self.sites: set[str] = set()
        self.left: dict[Func, dict[str, ast.AST]] = {}
        self.und: dict[str, str] = {}
        self.ok: set[str] = set()
        self.memo: dict[str, Any] = {}
        self.consumed: set[str] = set()

    def evaluate(self, g: Func, args: tuple, kw: dict[str, Any]) -> Any:
        key = repr((g.qual, args, kw))
        if key not in self.memo:
            try:
                self.memo[key] = CEval(self.p).call(g, *args, **kw)
            except (Unknown, Raised, RecursionError):
                self.memo[key] = None
        return self.memo[key]

    # ---- events
    def seen_site(self, e: ast.AST, f: Func) -> None:
        self.sites.add(f"{f.module.name}:{e.lineno}:{e.col_offset}")

    def undecided(self, e: ast.AST, f: Func, why: str) -> None:
        self.und[f"{f.module.name}:{e.lineno}:{e.col_offset}"] = f"{f.qual}: {why}"

    def filled(self, e: ast.AST, f: Func, left: list[str]) -> None:
        self.ok.add(f"{f.module.name}:{e.lineno}:{e.col_offset}")
        self.rep.count("templates filled (paths)")

    def owner(self, f: Func) -> str:
        return f.qual

    def rescan(self, v: Val, e: ast.AST, f: Func, t: Fill) -> None:
        parts = [x for x in (v.data if v.kind == "cat" else (v,)) if x.kind != "k" and x.kind not in ("pre", "star") and not self.harmless(x)]
        if parts:
            self.rep.add("rescan", f.qual, f"{f.module.path}:{e.lineno}", f"a text which already holds inserted values ({parts[0].key[:70]}) is filled again: a slot written in those values would be replaced, or its line removed")

    def absent(self, e: ast.AST, f: Func, key: str = "") -> None:
        self.rep.add("absent", f"{f.qual}:{key}", f"{f.module.path}:{e.lineno}", f"the value of {'`' + key + '`' if key else 'a formatted expression'} is None on a path: the text `None` would be written")

    def maybe_none(self, v: Val, s: State) -> bool:
        """what a function declared to return an Optional returned, and nothing about it was tested on the path"""
        if v.kind != "sy":
            return False
        g = self.origin.get(v.key)
        if g is None or isinstance(g.node, ast.Lambda) or g.node.returns is None or not re.search(r"Optional|\bNone\b", ast.unparse(g.node.returns)):
            return False
        recv = v.key.rsplit(f".{g.name}(", 1)[0] if f".{g.name}(" in v.key else v.key
        return not any(v.key in fact or recv != "self" and recv in fact for fact in s.facts)

    def harmless(self, v: Val) -> bool:
        """an opaque value which cannot hold a slot: blanks computed from the options"""
        if v.kind == "val":
            return False
        g = self.origin.get(v.key)
        if g is None or isinstance(g.node, ast.Lambda):
            return False
        rets = [x.value for x in self.p.own_nodes(g) if isinstance(x, ast.Return) and x.value is not None]

        def blank(n: ast.expr) -> bool:
            if isinstance(n, ast.Constant):
                return isinstance(n.value, str) and "{" not in n.value
            if isinstance(n, ast.IfExp):
                return blank(n.body) and blank(n.orelse)
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
                return blank(n.left) or blank(n.right)
            if isinstance(n, ast.Name):
                vs = [x.value for x in self.p.own_nodes(g) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in x.targets)]
                return bool(vs) and all(blank(x) for x in vs)
            return False
        return bool(rets) and all(blank(x) for x in rets)

    # ---- driver
    def outermost(self, f: Func) -> Func:
        while f.parent is not None:
            f = f.parent
        return f

    def level(self, f: Func) -> int:
        return 0 if f.parent is None else 1 + self.level(f.parent)

    def interesting(self) -> list[Func]:
        out: dict[Func, None] = {}
        for f in self.p.funcs.values():
            if not library(f) or self.outermost(f) in self.fillers.maps or self.outermost(f) in self.helpers:
                continue
            for n in self.p.own_nodes(f):
                hit = isinstance(n, ast.Call) and any(t in self.fillers.maps for t in self.p.callees(f.module, n)[0])
                if not hit and isinstance(n, ast.Constant) and isinstance(n.value, str) and SLOT.search(n.value) and not self.docstring(n, f) and not self.pattern_arg(n, f):
                    hit = True
                if hit:
                    out[f] = None
                    break
        return list(out)

    def docstring(self, n: ast.AST, f: Func) -> bool:
        return isinstance(self.p.parent_of.get(n), ast.Expr)

    def pattern_arg(self, n: ast.AST, f: Func) -> bool:
        c = self.p.parent_of.get(n)
        return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "re"

    def about(self, f: Func, g: Func) -> list[ast.stmt]:
        """the statements of f which matter for what its nested function g makes: those before which give it values, those after which use its result"""
        def names(n: ast.AST) -> set[str]:
            return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}

        def heads(n: ast.stmt) -> list[ast.AST]:
            return [c for c in ast.iter_child_nodes(n) if not isinstance(c, (ast.stmt, ast.ExceptHandler, ast.match_case))]

        def targets(n: ast.stmt) -> set[str]:
            out: set[str] = set()
            for h in heads(n):
                for x in ast.walk(h):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        out.add(x.id)
                    if isinstance(x, (ast.Attribute, ast.Subscript)):
                        y: ast.AST = x
                        while isinstance(y, (ast.Attribute, ast.Subscript)):
                            y = y.value
                        call = self.p.parent_of.get(x)
                        if isinstance(y, ast.Name) and (isinstance(x.ctx, ast.Store) or (isinstance(call, ast.Call) and call.func is x and isinstance(self.p.parent_of.get(call), ast.Expr))):
                            out.add(y.id)
            return out

        stmts = [x for x in self.p.own_nodes(f) if isinstance(x, ast.stmt)]
        nested = [h for h in self.p.funcs.values() if h.parent is f and h is not g]
        fwd, rel = {g.name}, names(g.node)
        while True:
            size = len(fwd) + len(rel)
            for h in nested:
                hn = names(h.node)
                if hn & fwd:
                    fwd.add(h.name)
                if h.name in rel:
                    rel |= hn
            for n in stmts:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    continue
                rd = set().union(*[names(h) for h in heads(n)]) if heads(n) else set()
                if rd & fwd and not isinstance(n, (ast.If, ast.For, ast.While, ast.With)):
                    fwd |= targets(n)
                    rel |= rd
                if targets(n) & rel:
                    rel |= rd
            if len(fwd) + len(rel) == size:
                break

        def cut(body: list[ast.stmt]) -> list[ast.stmt]:
            out: list[ast.stmt] = []
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Break, ast.Continue, ast.Global, ast.Nonlocal)):
                    out.append(n)
                    continue
                rd = set().union(*[names(h) for h in heads(n)]) if heads(n) else set()
                wanted = bool(rd & fwd) or (bool(targets(n) & (rel | fwd)) and not isinstance(n, (ast.Return, ast.Raise)))
                if isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                    m = copy.copy(n)
                    for fld in ("body", "orelse", "finalbody"):
                        if hasattr(m, fld):
                            setattr(m, fld, cut(getattr(n, fld)))
                    if isinstance(n, ast.Try):
                        hs = []
                        for h in n.handlers:
                            h2 = copy.copy(h)
                            h2.body = cut(h.body) or [ast.copy_location(ast.Pass(), h)]
                            hs.append(h2)
                        m.handlers = hs  # type: ignore
                    if not m.body and not getattr(m, "orelse", None) and not getattr(m, "finalbody", None) and not wanted:
                        continue
                    if not m.body:
                        m.body = [ast.copy_location(ast.Pass(), n)]
                    out.append(m)
                elif wanted:
                    out.append(n)
            return out
        return cut(f.body)

    def leaks(self, f: Func, inline: set[Func], part: Optional[Func] = None) -> Optional[dict[str, ast.AST]]:
        t = Fill(self, inline=lambda g: g in inline, max_states=600 if part is None and self.inner.get(f) else 4000)
        t.coarse = part is not None
        try:
            exits = t.run(f, body=self.about(f, part)) if part is not None else t.run(f)
        except Explosion as x:
            open_parts = sorted(self.inner.get(f, ()), key=lambda g: g.qual)
            if part is None and open_parts:
                self.rep.count("functions taken apart")
                found: dict[str, ast.AST] = {}
                for g in open_parts:
                    got = self.leaks(f, inline, g)
                    if got is None:
                        return None
                    found.update(got)
                return found
            self.rep.notes.append(f"{f.qual}: {str(x)[:120]}")
            self.rep.count("functions with too many paths")
            return None
        out: dict[str, ast.AST] = {}

        def walk(v: Val, s: State, node: ast.AST, depth: int = 0) -> None:
            if depth > 6:
                return
            if v.kind == "k":
                if isinstance(v.data, str):
                    for x in slots(v.data):
                        out.setdefault(x, node)
            elif v.kind in ("cat", "tup"):
                for y in v.data:
                    walk(y, s, node, depth + 1)
            elif v.kind == "ref":
                h = s.heap.get(v.data, ("",))
                if h[0] == "list":
                    for y in h[1]:
                        walk(y, s, node, depth + 1)
                elif h[0] == "obj":
                    for y in h[2].values():
                        walk(y, s, node, depth + 1)
            elif v.kind == "join":
                for x in slots(str(v.data)):
                    out.setdefault(x, node)
        for x in exits:
            if x.kind == "return":
                walk(x.val, x.st, x.node)
                for v in x.st.store.values():
                    walk(v, x.st, x.node)
        for lp in t.loops.values():
            for r in lp.recs:
                for items in r.lists.values():
                    for v in items:
                        walk(v, State(), lp.node)
                for parts in r.texts.values():
                    for v in parts or ():
                        walk(v, State(), lp.node)
        self.rep.count("functions interpreted")
        self.rep.count("paths", len(exits))
        return out

    def run(self) -> None:
        p, rep = self.p, self.rep
        # functions that only call a filler on their own parameters are part of the fillers
        self.helpers = {f for f in p.funcs.values() if library(f) and f not in self.fillers.maps and any(t is f for g in self.fillers.maps for n in p.own_nodes(g) if isinstance(n, ast.Call) for t in p.callees(g.module, n)[0])}
        self.fillers.audit(rep)
        work = self.interesting()
        self.left = {}
        self.inner: dict[Func, set[Func]] = {}
        # a nested function is interpreted by itself, and within the function around it when its template or its values come from there
        done: set[Func] = set()
        work.sort(key=lambda f: -self.level(f))
        while work:
            f = work.pop(0)
            if f in done:
                continue
            done.add(f)
            before = dict(self.und)
            self.und = {}
            findings = list(rep.findings)
            r = self.leaks(f, set())
            open_sites = {x for x in self.und if x not in self.ok}
            if f.parent is not None and (r is None or r or open_sites):
                rep.findings[:] = findings
                work.append(f.parent)
                self.inner.setdefault(f.parent, set()).add(f)
                work.sort(key=lambda f: -self.level(f))
            elif r:
                self.left[f] = r
            self.und = {**before, **self.und}
        # a template returned to the function that fills it
        for f, r in list(self.left.items()):
            callers = {self.outermost(c) for c, mod, n in self.calls_to(f)}
            bad = dict(r)
            if callers:
                filled: Optional[set[str]] = None
                for c in callers:
                    self.consumed = set()
                    rr = self.leaks(c, {f} | set(self.left))
                    got = self.consumed - set(rr or {}) if rr is not None and self.direct(c, f) else set()
                    filled = got if filled is None else filled & got
                bad = {s: n for s, n in bad.items() if s not in (filled or set())}
            for s, node in bad.items():
                rep.add("slot", f"{f.qual}:{s}", f"{f.module.path}:{getattr(node, 'lineno', f.node.lineno)}", f"the slot {s} is left in the text that leaves the function on a path")
        rep.count("sites which fill a template", len(self.sites))
        und = {w for x, w in self.und.items() if x not in self.ok}
        rep.count("sites undecided", len(und))
        rep.notes += sorted(und)

    def direct(self, c: Func, f: Func) -> bool:
        """each call of c which may reach f reaches only f"""
        return all(self.p.callees(mod, n)[0] == [f] for g, mod, n in self.calls_to(f) if self.outermost(g) is c)

    def calls_to(self, f: Func) -> list[tuple[Func, Any, ast.Call]]:
        out = []
        for g in self.p.funcs.values():
            if library(g) and g is not f:
                for n in self.p.own_nodes(g):
                    if isinstance(n, ast.Call) and f in self.p.callees(g.module, n)[0]:
                        out.append((g, g.module, n))
        return out


def run(p: Project, tier: str) -> Report:
    rep = Report("C10", __doc__.split("\n\n")[1].replace("\n", " "))
    Rule(p, rep).run()
    return rep
