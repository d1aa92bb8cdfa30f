"""C25: all generated parts reach the output of every API.

Each function is interpreted into terms, path by path (vlib/trans.py), with its helpers of the same module inlined:
(glue)     the text of the glue code holds, on each path, each text accumulated in the context and the code of each boxed type, exactly once unless a fact of
           the path says it is empty or omitted; the predicate which reports glue code is false only on paths where every part is known to be empty or omitted
(outputs)  each text returned for the bindings (the stub) is made of the boxed types and of all that was processed, in that order, each element once, from the
           field which holds the bindings (the stub); the post-processing function is applied on the paths where there is one, and only there
(process)  processing a file stores exactly one record, whose fields are the bindings and the stub of that same unit, and resets the namespaces after both
(api)      each API returns, or writes under its own marker, each kind of code exactly once, after processing, and hands its parameters down under their names
(unit)     the text of a unit is made of its elements, of the namespaces' code and of the custom code of the main module, of its own kind (stub or bindings)
(custom)   each kind of custom code is added to both outputs, in the output of its kind, on each path where there is some; what the user registers is stored for
           both kinds and given back entirely
(tree)     the code stored for a namespace reaches the tree once, and the text of a tree holds its own code and each of its sub trees exactly once
(store)    the glue code of a class is stored by the function that writes its bindings, before any return that is not a delegation"""
from __future__ import annotations

import ast
import re
from typing import Any, Callable, Iterable, Optional

from rules.c15 import library
from vlib.project import Cls, Func, Project
from vlib.report import Report
from vlib.trans import Exit, Explosion, Loop, State, Trans, Val, k, sy

TECHNIQUE = "path-sensitive abstract interpretation of the functions that assemble the outputs (sequence of terms per path, one record per class of iteration), parameter forwarding between the APIs"
LEVEL_NOTE = "That each part is assembled exactly once and of its own kind is decided; the content of each part is decided by other properties."

KINDS = ("pydef", "stub")


class Asm(Trans):
    """opaque objects of the classes in `opaque`"""

    def __init__(self, p: Project, opaque: set[str] = frozenset(), **kw: Any):  # type: ignore
        super().__init__(p, **kw)
        self.opaque = opaque

    def merge(self, sts: list[State]) -> list[State]:
        """states which differ in what is known about the parts are kept apart"""
        if len(sts) < 2:
            return sts
        groups: dict[frozenset, list[State]] = {}
        for s in sts:
            groups.setdefault(frozenset((a, b) for a, b in s.facts.items() if re.search(r"boxed|omit|emitted|glue|postprocess|_code\b|custom|namespace_code", a)), []).append(s)
        out = [x for g in groups.values() for x in super(Asm, self).merge(g)]
        if len(out) > self.max_states:
            raise Explosion(f"{len(out)} states")
        return out

    def call(self, e: ast.Call, b: Optional[Val], args: list[Val], kw: dict[str, Val], s: State, fr: int, f: Func) -> list:
        if b is not None and b.kind == "sy" and isinstance(e.func, ast.Attribute) and e.func.attr in ("append", "extend", "insert", "add"):
            s.events += (("into", b.key, tuple(args), e, k(None)),)
        if isinstance(e.func, ast.Name):
            fv = self.e_Name(e.func, s, fr, f)[0][0]
            if fv.kind == "sy" and re.search(r"\bpostprocess_\w+$", fv.key) and fv.key != e.func.id:
                r = sy(f"{fv.key}({','.join(self.content(x, s) for x in list(args) + list(kw.values()))})")
                s.events += (("call", fv.key, tuple(args) + tuple(kw.values()), e, r),)
                return [(r, s)]
        return super().call(e, b, args, kw, s, fr, f)

    def construct(self, full: str, e: ast.Call, args: list[Val], kw: dict[str, Val], s: State, f: Func) -> list:
        if full.split(".")[-1] in self.opaque:
            r = sy(f"new {full.split('.')[-1]}")
            s.events += (("new", full, tuple(args) + tuple(kw.values()), e, r),)
            return [(r, s)]
        return super().construct(full, e, args, kw, s, f)


class Rule:
    def __init__(self, p: Project, rep: Report):
        self.p, self.rep = p, rep

    # ---- helpers
    def cls(self, name: str) -> Optional[Cls]:
        cs = [c for full, c in self.p.classes.items() if full.split(".")[-1] == name and c.module.name.startswith("litgen")]
        return cs[0] if len(cs) == 1 else None

    def method(self, cls: str, name: str) -> Optional[Func]:
        c = self.cls(cls)
        return self.p.find_method(c.full, name) if c is not None else None

    def run_paths(self, f: Func, inline: Optional[Callable[[Func], bool]] = None, opaque: Iterable[str] = ()) -> Optional[tuple[list[Exit], Asm]]:
        t = Asm(self.p, set(opaque), inline=inline or (lambda g: g.module is f.module and g is not f), max_states=4000, max_steps=60000)
        try:
            ex = t.run(f)
        except Explosion as x:
            self.rep.notes.append(f"{f.qual}: {str(x)[:100]}")
            self.rep.count("functions with too many paths")
            return None
        self.rep.count("functions interpreted")
        self.rep.count("paths", len(ex))
        return [x for x in ex if x.kind == "return"], t

    def parts(self, v: Val, s: State, t: Asm) -> list[Val]:
        """a text as the sequence of its terms; a list as the sequence of its elements; a join opened"""
        if v.kind == "cat":
            return [y for x in v.data for y in self.parts(x, s, t)]
        if v.kind == "join":
            m = re.match(r".*?\|(\d+)\|", v.data, re.S)
            if m and int(m.group(1)) in s.heap:
                return [y for x in s.heap[int(m.group(1))][1] for y in self.parts(x, s, t)]
        if v.kind == "ref" and s.heap.get(v.data, ("",))[0] == "list":
            return [y for x in s.heap[v.data][1] for y in self.parts(x, s, t)]
        if v.kind == "all":
            return [sy(v.data)]
        return [] if v == k("") else [v]

    def loops_of(self, v: Val, t: Asm) -> list[Loop]:
        return [t.loops[v.data]] if v.kind == "star" and v.data in t.loops else []

    def add(self, rule: str, f: Func, what: str, node: Optional[ast.AST], msg: str) -> None:
        self.rep.add(rule, f"{f.qual}:{what}", f.loc(node) if node is not None and hasattr(node, "lineno") else f.loc(), msg)

    def mention(self, key: str, attr: str) -> bool:
        return re.search(rf"(?<![\w]){re.escape(attr)}(?!\w)", key) is not None

    # ---- the accumulators of the context
    def accumulators(self) -> tuple[list[str], list[str]]:
        """attributes of the context: texts which are extended, and sets of types which are filled, outside of it"""
        c = self.cls("LitgenContext")
        texts: list[str] = []
        sets: list[str] = []
        if c is None:
            return texts, sets
        ann = {n.target.id: ast.unparse(n.annotation) for n in c.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)}
        gen = self.cls("LitgenGenerator")
        read = {n.attr for f in self.p.funcs.values() if gen is not None and f.cls is gen for n in self.p.own_nodes(f) if isinstance(n, ast.Attribute)}
        for f in self.p.funcs.values():
            if not library(f) or f.cls is c:
                continue
            for n in self.p.own_nodes(f):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and ann.get(n.target.attr) == "str" and n.target.attr not in texts:
                    texts.append(n.target.attr)
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and ann.get(n.targets[0].attr) == "str" and isinstance(n.value, (ast.BinOp, ast.JoinedStr)) and n.targets[0].attr not in texts and any(isinstance(x, ast.Attribute) and x.attr == n.targets[0].attr for x in ast.walk(n.value)):
                    texts.append(n.targets[0].attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add", "append", "update") and isinstance(n.func.value, ast.Attribute) and re.match(r"(set|list)\[CppTypeName\]", ann.get(n.func.value.attr, "")) and n.func.value.attr in read | {n.func.value.attr}:
                    if n.func.value.attr not in sets:
                        sets.append(n.func.value.attr)
        return texts, sets

    def empty_fact(self, attr: str, s: State) -> bool:
        return any(self.mention(a, attr) and not b and not a.startswith("not") for a, b in s.facts.items())

    def omitted(self, s: State) -> bool:
        return any("omit" in a and b for a, b in s.facts.items())

    def glue(self) -> None:
        texts, sets = self.accumulators()
        f = self.method("LitgenGenerator", "glue_code")
        if f is None or not texts:
            return
        r = self.run_paths(f, inline=lambda g: g.module is f.module)
        if r is None:
            return
        ex, t = r
        for x in ex:
            ps = self.parts(x.val, x.st, t)
            for a in texts:
                self.rep.count("obligations")
                n = sum(1 for y in ps if y.kind == "sy" and y.data.split(".")[-1] == a)
                if n != 1 and not (n == 0 and self.empty_fact(a, x.st)):
                    self.add("glue", f, a, x.node, f"`{a}` is written {n} times in the glue code on a path")
            for a in sets:
                self.rep.count("obligations")
                ls = [lp for y in ps for lp in self.loops_of(y, t) if lp.source is not None and self.mention(lp.source.key, a)]
                other = [y for y in ps if y.kind not in ("star",) and self.mention(y.key, a)]
                n = len(ls) + len(other)
                if n != 1 and not (n == 0 and (self.omitted(x.st) or self.empty_fact(a, x.st))):
                    self.add("glue", f, a, x.node, f"the code of the boxed types (`{a}`) is written {n} times on a path")
                if n and self.omitted(x.st):
                    self.add("glue", f, a + ":omit", x.node, "the code of the boxed types is written although they are omitted")
                for lp in ls:
                    self.each(f, lp, "glue", a)
        g = self.method("LitgenGenerator", "has_glue_code")
        if g is None:
            return
        r = self.run_paths(g, inline=lambda h: h.module is g.module)
        if r is None:
            return
        ex, t = r
        for x in ex:
            for val, s in t.truth(x.val, x.st.copy()):
                self.rep.count("obligations")
                if val:
                    if not any(b and any(self.mention(a, n) for n in texts + sets) or a.startswith("eq(") and not b for a, b in s.facts.items()):
                        self.add("glue", g, "true", x.node, "glue code is announced on a path where no part is known to be there")
                else:
                    for n in texts:
                        if not self.empty_fact(n, s):
                            self.add("glue", g, n, x.node, f"no glue code is announced although `{n}` may hold some")
                    for n in sets:
                        if not self.empty_fact(n, s) and not self.omitted(s):
                            self.add("glue", g, n, x.node, f"no glue code is announced although boxed types (`{n}`) may have been met")

    def each(self, f: Func, lp: Loop, rule: str, what: str) -> None:
        """each iteration adds exactly one term about its element"""
        for rec in lp.recs:
            self.rep.count("obligations")
            n = 0
            for items in list(rec.lists.values()) + [v for v in rec.texts.values() if v is not None]:
                n += sum(1 for v in items if v.kind != "k")
            if rec.outcome in ("break", "return") or n == 0:
                self.add(rule, f, what + ":each", lp.node, f"an element of {lp.source.key[:60] if lp.source is not None else 'the loop'} is left out on a path through the loop")
            elif n > 1:
                self.add(rule, f, what + ":once", lp.node, "an element is written more than once by an iteration")

    # ---- the texts of the generator
    def outputs(self) -> None:
        for kind in KINDS:
            f = self.method("LitgenGenerator", f"{kind}_code")
            if f is None:
                continue
            other = next(x for x in KINDS if x != kind)
            r = self.run_paths(f, inline=lambda g: g.module is f.module, opaque=("LitgenContext", "LitgenOptions"))
            if r is None:
                continue
            ex, t = r
            for x in ex:
                v = x.val
                facts = x.st.facts
                post = [a for a in facts if f"postprocess_{kind}" in a]
                applied = re.match(r"[\w.]*postprocess_(\w+?)_function\(", v.key)
                self.rep.count("obligations", 3)
                if applied and applied.group(1) != kind:
                    self.add("outputs", f, "post kind", x.node, f"the post-processing function of the {applied.group(1)} is applied to the {kind}")
                has = None
                for a in post:
                    has = (not facts[a]) if a.startswith("eq(None") else facts[a]
                if has is not None and has != bool(applied):
                    self.add("outputs", f, "post", x.node, "the post-processing function is skipped on a path where there is one" if has else "the post-processing function is called where there is none")
                if has is None and not applied:
                    self.add("outputs", f, "post", x.node, f"a path returns the {kind} without looking at its post-processing function")
                loops = [lp for key, lp in t.loops.items() if f"star[{key}]" in v.key]
                if len(loops) != 1:
                    if not re.search(rf"\.{kind}_code\b", v.key):
                        self.add("outputs", f, "loop", x.node, f"the text is made of {len(loops)} walks over the generated codes")
                    continue
                lp = loops[0]
                self.each(f, lp, "outputs", kind)
                for rec in lp.recs:
                    terms = [y.key for items in rec.lists.values() for y in items] + [y.key for its in rec.texts.values() if its for y in its]
                    if terms and not any(self.mention(a, f"{kind}_code") for a in terms):
                        self.add("outputs", f, "field", lp.node, f"an element is written without its {kind} code")
                    if any(self.mention(a, f"{other}_code") for a in terms):
                        self.add("outputs", f, "field", lp.node, f"the {other} code of an element is written in the {kind}")
                # the list which is walked: the boxed types, then everything that was processed
                src = lp.source
                if src is not None:
                    items = [y.key for y in self.parts(src, x.st, t)]
                    omit = self.omitted(x.st)
                    own = [i for i, a in enumerate(items) if "_generated_codes" in a]
                    boxed = [i for i, a in enumerate(items) if i not in own]
                    for i in own:
                        if re.search(r"_generated_codes\[", items[i]):
                            self.add("outputs", f, "part", lp.node, f"only a part of what was processed is walked (`{items[i][:60]}`)")
                    self.rep.count("obligations", 3)
                    if len(own) != 1:
                        self.add("outputs", f, "processed", lp.node, f"what was processed is walked {len(own)} times ({', '.join(items)[:80]})")
                    elif boxed and boxed[0] > own[0]:
                        self.add("outputs", f, "order", lp.node, "the boxed types are written after the code which uses them")
                    none_boxed = any(("boxed" in a and not a.startswith("eq(")) and not b for a, b in facts.items()) or any(a.startswith("eq(None") and "boxed" in a and b for a, b in facts.items())
                    if not boxed and not omit and not none_boxed:
                        self.add("outputs", f, "boxed", lp.node, "the boxed types are left out on a path where they are not known to be omitted or absent")
                    if boxed and omit:
                        self.add("outputs", f, "omit", lp.node, "the boxed types are written although they are omitted")
                    if len(boxed) > 1:
                        self.add("outputs", f, "boxed twice", lp.node, "the boxed types are written twice")

    # ---- one unit
    def process(self) -> None:
        rc = self.cls("_GeneratedCode")
        for f in self.p.funcs.values():
            if not library(f) or rc is None or not any(isinstance(n, ast.Call) and self.p.constructed_class(f.module, n) == rc.full for n in self.p.own_nodes(f)):
                continue
            r = self.run_paths(f, inline=lambda g: False)
            if r is None:
                continue
            ex, t = r
            for x in ex:
                recs = [h for h in x.st.heap.values() if h[0] == "obj" and h[1] == rc.full]
                stored = [e for e in x.st.events if e[0] == "new" and e[1] == rc.full]
                units = set()
                for h in recs:
                    for kind in KINDS:
                        self.rep.count("obligations")
                        v = h[2].get(f"{kind}_code", k(None))
                        m = re.match(r"(.*)\.str_(\w+)\(\)$", v.key, re.S)
                        if not m or m.group(2) != kind:
                            self.add("process", f, kind, x.node, f"the {kind} code which is stored is `{v.key[:60]}`")
                        else:
                            units.add(m.group(1))
                if len(units) > 1:
                    self.add("process", f, "unit", x.node, "the bindings and the stub that are stored come from two units")
                if f.name == "process_cpp_code":
                    self.rep.count("obligations", 3)
                    n = len(stored)
                    apps = [e for e in x.st.events if e[0] == "call" and e[3] is not None and isinstance(e[3].func, ast.Attribute) and e[3].func.attr in ("append", "extend", "insert") and "_generated_codes" in ast.unparse(e[3].func.value)]
                    aug = [e for e in x.st.events if e[0] == "setattr" and e[1].endswith("._generated_codes")]
                    if n != 1 or len(apps) + len(aug) != 1:
                        self.add("process", f, "stored", x.node, f"{len(apps) + len(aug)} records are stored on a path, instead of one")
                    names = [e[1].split(".")[-1] for e in x.st.events if e[0] == "call"]
                    if "clear_namespaces_code_tree" in names:
                        at = names.index("clear_namespaces_code_tree")
                        if any(a in names[at:] for a in ("str_stub", "str_pydef")):
                            self.add("process", f, "clear", x.node, "the namespaces are reset before both texts were made")
                    else:
                        self.add("process", f, "clear", x.node, "the namespaces are not reset after the unit: its code would be written again with the next one")
                    if "filename" in f.params and recs and recs[0][2].get("source_filename", k(None)).key != "filename":
                        self.add("process", f, "filename", x.node, "the record does not carry the name of its file")

    # ---- the APIs
    def api(self) -> None:
        gc, gen = self.cls("GeneratedCodes"), self.cls("LitgenGenerator")
        if gen is None:
            return
        mod = gen.module
        writer = [f for f in self.p.funcs.values() if f.name == "write_generated_code_between_markers" and library(f)]
        helpers: set[Func] = set()
        for f in sorted(self.p.funcs.values(), key=lambda g: not g.name.startswith("_")):
            if f.module is not mod or f.parent is not None:
                continue
            builds = gc is not None and any(isinstance(n, ast.Call) and self.p.constructed_class(f.module, n) == gc.full for n in self.p.own_nodes(f))
            if builds and f.name.startswith("_") and any(g.module is mod for g in self.p.callers_of(f) if g is not None):
                helpers.add(f)
                continue
            if builds or any(helpers & set(self.p.callees(f.module, n)[0]) for n in self.p.own_nodes(f) if isinstance(n, ast.Call)):
                r = self.run_paths(f, inline=lambda g: g.module is mod and g.cls is not gen and not g.name.startswith("_read"), opaque=("LitgenGenerator",))
                if r is not None:
                    for x in r[0]:
                        self.api_path(f, x, gc)  # type: ignore
            writes = [n for n in self.p.own_nodes(f) if isinstance(n, ast.Call) and any(w in self.p.callees(f.module, n)[0] for w in writer)]
            if writes:
                self.writes(f, writer)
        self.forward(mod, gen)

    def api_path(self, f: Func, x: Exit, gc: Cls) -> None:
        if x.val.kind != "ref" or x.st.heap.get(x.val.data, ("",))[0] != "obj":
            return
        h = x.st.heap[x.val.data]
        gens = set()
        for kind in KINDS + ("glue",):
            self.rep.count("obligations")
            v = h[2].get(f"{kind}_code", k(None))
            m = re.match(r"(.*)\.(\w+)_code\(\)$", v.key, re.S)
            if m is None or m.group(2) != kind:
                self.add("api", f, kind, x.node, f"the {kind} code which is returned is `{v.key[:60]}`")
            else:
                gens.add(m.group(1))
        names = [e[1].split(".")[-1] for e in x.st.events if e[0] in ("call", "loop:call")]
        proc = [i for i, n in enumerate(names) if n.startswith("process_cpp")]
        reads = [i for i, n in enumerate(names) if n in ("pydef_code", "stub_code", "glue_code")]
        self.rep.count("obligations", 2)
        if not proc or reads and min(reads) < min(proc):
            self.add("api", f, "process", x.node, "a path returns the codes before anything was processed")
        if len(gens) > 1:
            self.add("api", f, "generator", x.node, "the codes come from different generators")

    def writes(self, f: Func, writer: list[Func]) -> None:
        mod = f.module
        gen = self.cls("LitgenGenerator")
        r = self.run_paths(f, inline=lambda g: g.module is mod and g.name not in ("pydef_code", "stub_code", "glue_code", "has_glue_code") and not g.name.startswith(("help_", "apply_black", "_typical")))
        if r is None:
            return
        kinds = {"litgen_pydef": "pydef", "litgen_stub": "stub", "litgen_glue_code": "glue"}
        for x in r[0]:
            done: dict[str, int] = {v: 0 for v in kinds.values()}
            for e in x.st.events:
                if e[0] != "call" or e[1] not in {w.qual for w in writer} or not isinstance(e[3], ast.Call):
                    continue
                a = e[2]
                names = [p for p in writer[0].params]
                bound = dict(zip(names, a[:len(e[3].args)]))
                bound.update({kw.arg: v for kw, v in zip(e[3].keywords, a[len(e[3].args):])})
                vals = [bound.get(n) for n in names[:3]]
                if any(v is None for v in vals):
                    continue
                file, marker, code = vals
                self.rep.count("obligations", 3)
                kind = kinds.get(marker.data) if marker.kind == "k" else None  # type: ignore
                if kind is None:
                    if marker.kind == "k":  # type: ignore
                        self.add("api", f, f"marker {marker.data}", e[3], "unknown marker")  # type: ignore
                    continue
                done[kind] += 1
                if not re.search(rf"(^|\.){kind}_code\(\)$", code.key):  # type: ignore
                    self.add("api", f, f"{kind} code", e[3], f"`{code.key[:60]}` is written under the marker of the {kind} code")  # type: ignore
                if kind != "glue" and kind not in file.key:  # type: ignore
                    self.add("api", f, f"{kind} file", e[3], f"the {kind} code is written in `{file.key[:60]}`")  # type: ignore
                if kind == "glue":
                    given = [b for a2, b in x.st.facts.items() if "glue" in a2]
                    if given and given[-1] != ("glue" in file.key):  # type: ignore
                        self.add("api", f, "glue file", e[3], f"the glue code is written in `{file.key[:60]}` where its file is {'given' if given[-1] else 'not given'}")  # type: ignore
            for kind, n in done.items():
                self.rep.count("obligations")
                if n != 1:
                    self.add("api", f, f"{kind} written", x.node, f"the {kind} code is written {n} times on a path")

    def forward(self, mod: Any, gen: Cls) -> None:
        """a parameter of an API is handed down under its own name"""
        for f in self.p.funcs.values():
            if f.module is not mod or f.parent is not None or f.name.startswith("_") and f.name != "__init__" or isinstance(f.node, ast.Lambda):
                continue
            mine = set(f.params) - {"self"}
            for n in self.p.own_nodes(f):
                if not isinstance(n, ast.Call):
                    continue
                g: Optional[Func] = None
                c = self.p.constructed_class(f.module, n)
                if c is not None and c in self.p.classes:
                    g = self.p.find_method(c, "__init__")
                else:
                    ts, _ = self.p.callees(f.module, n)
                    g = ts[0] if len(ts) == 1 else None
                if g is None or g.module is not mod or isinstance(g.node, ast.Lambda):
                    continue
                params = [x for x in g.params if x != "self"]
                if any(isinstance(a, ast.Starred) for a in n.args) or any(kw.arg is None for kw in n.keywords):
                    continue
                bound = dict(zip(params, n.args))
                bound.update({kw.arg: kw.value for kw in n.keywords if kw.arg})
                for name in params:
                    if name not in mine:
                        continue
                    self.rep.count("parameters handed down")
                    v = bound.get(name)
                    if v is None:
                        if g.name == f.name or self.singular(f, g, name):
                            self.add("api", f, f"{g.name}.{name}", n, f"the parameter `{name}` is not handed down to {g.name}")
                    else:
                        free = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
                        if name not in free and not self.derived(f, free, name):
                            self.add("api", f, f"{g.name}.{name}", n, f"{g.name} receives `{ast.unparse(v)[:50]}` as `{name}`, not the parameter `{name}`")
                for name, v in bound.items():
                    if isinstance(v, ast.Name) and v.id in mine and v.id in params and v.id != name:
                        self.add("api", f, f"{g.name}.{name}", n, f"{g.name} receives the parameter `{v.id}` as `{name}`")

    def singular(self, f: Func, g: Func, name: str) -> bool:
        return True

    def derived(self, f: Func, free: set[str], name: str) -> bool:
        """a local variable computed from the parameter"""
        for n in self.p.own_nodes(f):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(t, ast.Name) and t.id in free for t in ts) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.value)):
                    return True
        return False

    # ---- the text of a unit
    def unit(self) -> None:
        for kind in KINDS:
            f = self.method("AdaptedUnit", f"str_{kind}")
            if f is None:
                continue
            other = next(x for x in KINDS if x != kind)
            r = self.run_paths(f)
            if r is None:
                continue
            for x in r[0]:
                ps = [y.key for y in self.parts(x.val, x.st, r[1])]
                self.rep.count("obligations", 4)
                own = [a for a in ps if f"str_{kind}(" in a]
                tree = [a for a in ps if "full_tree_code(" in a]
                cust = [a for a in ps if "custom_code(" in a]
                if len(own) != 1 or any(f"str_{other}(" in a for a in ps):
                    self.add("unit", f, "elements", x.node, f"the code of the elements is written {len(own)} times on a path")
                if len(tree) != 1 or f"namespaces_{kind}" not in tree[0]:
                    self.add("unit", f, "namespaces", x.node, f"the code of the namespaces of the {kind} is not written exactly once on a path ({', '.join(tree)[:80]})")
                if own and tree and ps.index(own[0]) > ps.index(tree[0]):
                    self.add("unit", f, "order", x.node, "the namespaces are written before the elements of the module")
                absent = any("custom_code(" in a and a.startswith("eq(None") and b for a, b in x.st.facts.items()) or any("custom_code(" in a and not a.startswith("eq(") and not b for a, b in x.st.facts.items())
                emitted = any("emitted" in a and b for a, b in x.st.facts.items())
                if len(cust) > 1 or not cust and not absent and not emitted:
                    self.add("unit", f, "custom", x.node, f"the custom code of the main module is written {len(cust)} times on a path where there is some")
                for a in cust:
                    if f"is_pydef={kind == 'pydef'}" not in a:
                        self.add("unit", f, "custom kind", x.node, f"the custom code written in the {kind} is `{a[-60:]}`")

    # ---- custom bindings
    def custom(self) -> None:
        cb = self.cls("CustomBindings")
        if cb is None:
            return
        makers = [f for f in self.p.funcs.values() if f.cls is cb and f.name.startswith("_pub_") and "is_pydef" in f.params]
        want: dict[tuple[str, bool], int] = {(m.name, b): 0 for m in makers for b in (True, False)}
        for f in self.p.funcs.values():
            if not library(f) or f.cls is cb:
                continue
            for n in self.p.own_nodes(f):
                if not isinstance(n, ast.Call):
                    continue
                ts = [t for t in self.p.callees(f.module, n)[0] if t in makers]
                if not ts:
                    continue
                flag = self.flag(ts[0], n)
                side = self.sides(f)
                self.rep.count("uses of custom code")
                if flag is not None:
                    want[(ts[0].name, flag)] += 1
                    if side and side != {"pydef" if flag else "stub"}:
                        self.add("custom", f, ts[0].name, n, f"custom code of the {'bindings' if flag else 'stub'} is written in the {'/'.join(sorted(side))}")
                else:
                    for b in (True, False):
                        want[(ts[0].name, b)] += 1
                self.used(f, n)
        for (name, b), cnt in want.items():
            self.rep.count("obligations")
            if cnt == 0:
                m = next(x for x in makers if x.name == name)
                self.add("custom", m, f"{'pydef' if b else 'stub'}", None, f"nothing writes this custom code in the {'bindings' if b else 'stub'}")
        self.registry(cb, makers)

    def flag(self, m: Func, n: ast.Call) -> Optional[bool]:
        v = next((kw.value for kw in n.keywords if kw.arg == "is_pydef"), None)
        if v is None:
            params = [x for x in m.params if x != "self"]
            i = params.index("is_pydef")
            v = n.args[i] if i < len(n.args) else None
        return v.value if isinstance(v, ast.Constant) and isinstance(v.value, bool) else None

    def sides(self, f: Func) -> set[str]:
        """stub or pydef, from the rendering functions which reach f"""
        out: set[str] = set()
        seen: set[Func] = set()
        todo = [f]
        while todo:
            g = todo.pop()
            while g.parent is not None:
                g = g.parent
            if g in seen:
                continue
            seen.add(g)
            if g.name in ("pydef_lines", "str_pydef"):
                out.add("pydef")
                continue
            if g.name in ("stub_lines", "str_stub"):
                out.add("stub")
                continue
            todo += [c for c in self.p.callers_of(g) if c is not None and library(c)]
        return out

    def used(self, f: Func, call: ast.Call) -> None:
        """where the custom code is not None, it reaches what is returned"""
        r = self.run_paths(f, inline=lambda g: False)
        if r is None:
            # too many paths: what is assigned must be read in a statement which extends or returns something
            p = self.p.parent_of.get(call)
            if isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name):
                name = p.targets[0].id
                ok = False
                for n in self.p.own_nodes(f):
                    if isinstance(n, (ast.AugAssign, ast.Assign, ast.Return, ast.Expr)) and n is not p and n.value is not None and any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) for x in ast.walk(n.value)):
                        t = n.target if isinstance(n, ast.AugAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
                        ok = ok or t is None or not (isinstance(t, ast.Name) and t.id == name)
                if not ok:
                    self.add("custom", f, "dropped", call, "the custom code is not written")
            return
        ex, t = r
        for x in ex:
            evs = [e for e in x.st.events if e[0] == "call" and e[3] is call]
            if not evs:
                continue
            v = evs[0][4]
            self.rep.count("obligations")
            none = any(v.key in a and (b if a.startswith("eq(None") else not b) for a, b in x.st.facts.items() if v.key in a and (a.startswith("eq(None") or a == v.key))
            txt = "|".join(y.key for y in self.parts(x.val, x.st, t)) + "|".join(y.key for e in x.st.events if e[0] == "call" and e[3] is not call for y in e[2] for y in self.parts(y, x.st, t))
            n = txt.count(v.key)
            if n == 0 and not none:
                self.add("custom", f, "dropped", call, "the custom code is not written on a path where there is some")

    def registry(self, cb: Cls, makers: list[Func]) -> None:
        f0 = [f for f in self.p.funcs.values() if f.cls is cb and f.name.startswith("add_custom_bindings")]
        for f in f0:
            r = self.run_paths(f, inline=lambda g: g.cls is cb)
            if r is None:
                continue
            for x in r[0]:
                for kind in KINDS:
                    param = f"{kind}_code"
                    self.rep.count("obligations")
                    none = any(param in a and a.startswith("eq(None") and b for a, b in x.st.facts.items()) or any(a == param and not b for a, b in x.st.facts.items())
                    apps = [e for e in x.st.events if e[0] == "into" and any(self.mention(y.key, param) for y in e[2])]
                    if len(apps) != 1 and not none:
                        self.add("custom", f, kind, x.node, f"the {kind} code which is registered is stored {len(apps)} times on a path")
                    for e in x.st.events:
                        if e[0] == "setitem" and re.search(r"_custom_binding_\w+s$", e[1]) and not any(a.startswith("in(") and "_custom_binding" in a and not b for a, b in x.st.facts.items()):
                            self.add("custom", f, kind + " lost", x.node, "the code which was registered before for the scope is lost")
                    for e in apps:
                        m = re.search(r"_custom_binding_(\w+?)s\b", e[1])
                        if m and m.group(1) != kind:
                            self.add("custom", f, kind + " kind", x.node, f"the {kind} code is stored with the code of the other kind")
        for f in makers:
            r = self.run_paths(f, inline=lambda g: g.cls is cb)
            if r is None:
                continue
            ex, t = r
            for x in ex:
                self.rep.count("obligations")
                if x.val == k(None):
                    if not any(a.startswith("in(") and not b or a.startswith("eq(None") and b or not a.startswith(("in(", "eq(")) and not b for a, b in x.st.facts.items()):
                        self.add("custom", f, "none", x.node, "nothing is given back on a path where code may have been registered")
                    continue
                got = set(re.findall(r"_custom_binding_(\w+?)s\b", x.val.key + " ".join(a for a in x.st.facts if a.startswith("in("))))
                flag = x.st.facts.get("is_pydef")
                if flag is not None and got - {"pydef" if flag else "stub"}:
                    self.add("custom", f, "kind", x.node, f"the code which is given back for the {'bindings' if flag else 'stub'} is the {'/'.join(sorted(got))} code")
                for lp in t.loops.values():
                    if lp.source is not None and "custom_binding" in lp.source.key and any(rec.lists or rec.texts for rec in lp.recs):
                        self.each(lp.func, lp, "custom", "codes")

    # ---- namespaces
    def tree(self) -> None:
        c = self.cls("NamespacesCodeTree")
        if c is None:
            return
        ms = [f for f in self.p.funcs.values() if f.cls is c and f.parent is None]
        rooms = {"full_tree_code", "_store_code_in_tree", "store_code"}

        def helper(g: Func) -> bool:
            return (g.cls is c or g.cls is None and g.parent is None and g.module is c.module) and g.name.startswith("_") and g.name not in rooms

        full = next((f for f in ms if f.name == "full_tree_code"), None)
        if full is not None:
            r = self.run_paths(full, inline=helper)
            if r is not None:
                ex, t = r
                for x in ex:
                    ps = self.parts(x.val, x.st, t)
                    own = [y for y in ps if y.key == "self._namespace_code"]
                    stars = [lp for y in ps for lp in self.loops_of(y, t)]
                    self.rep.count("obligations", 2)
                    if len(own) != 1 and not (not own and self.empty_fact("_namespace_code", x.st)):
                        self.add("tree", full, "own", x.node, f"the code of the namespace is written {len(own)} times on a path")
                    if len(stars) != 1:
                        self.add("tree", full, "sub", x.node, f"the sub namespaces are written {len(stars)} times on a path")
                    for lp in stars:
                        self.each(full, lp, "tree", "sub")
                        for rec in lp.recs:
                            terms = [y.key for its in list(rec.texts.values()) + list(rec.lists.values()) if its for y in its]
                            if terms and not any("full_tree_code(" in a for a in terms):
                                self.add("tree", full, "sub code", lp.node, "the code of a sub namespace is not what is written")
                    intro = [y for y in ps if "_intro" in y.key]
                    outro = [y for y in ps if "_outro" in y.key]
                    if len(intro) != len(outro):
                        self.add("tree", full, "brackets", x.node, "a path opens a namespace without closing it, or closes it without opening it")
                    order = [i for i, y in enumerate(ps) if y in intro] + [i for i, y in enumerate(ps) if y in own] + [i for i, y in enumerate(ps) if y.kind == "star"] + [i for i, y in enumerate(ps) if y in outro]
                    if order != sorted(order):
                        self.add("tree", full, "order", x.node, "the parts of a namespace are not written in the order: opening, own code, sub namespaces, closing")
        store = next((f for f in ms if f.name == "_store_code_in_tree"), None)
        if store is not None and "code" in store.params:
            r = self.run_paths(store, inline=helper)
            if r is not None:
                for x in r[0]:
                    self.rep.count("obligations")
                    sets = [e for e in x.st.events if e[0] == "setattr" and e[1].endswith("._namespace_code")]
                    n = 0
                    lost = False
                    for e in sets:
                        ks = [y.key for y in self.parts(e[2][0], x.st, r[1])]
                        n = ks.count("code") if "code" in ks else n
                        fresh = re.match(r"&(\d+)\.", e[1]) is not None and ks == []
                        lost = lost or not fresh and not any("_namespace_code" in a for a in ks)
                    for e in x.st.events:
                        if e[0] == "setitem" and e[1].endswith("_sub_namespaces_code") and not any(a.startswith("in(") and "_sub_namespaces_code" in a and not b for a, b in x.st.facts.items()):
                            self.add("tree", store, "sub lost", x.node, "the tree of a namespace is replaced on a path where it may exist already")
                    rec = [e for e in x.st.events if e[0] == "call" and e[1].endswith("_store_code_in_tree") and any(y.key == "code" for y in e[2])]
                    if n + len(rec) != 1:
                        self.add("tree", store, "once", x.node, f"the code is stored {n + len(rec)} times on a path")
                    if lost:
                        self.add("tree", store, "kept", x.node, "the code which was already stored for the namespace is lost")
        api = next((f for f in ms if f.name == "store_code"), None)
        if api is not None and "code" in api.params:
            r = self.run_paths(api, inline=helper)
            if r is not None:
                for x in r[0]:
                    self.rep.count("obligations")
                    n = sum(1 for e in x.st.events if e[0] == "call" and e[1].endswith("_store_code_in_tree") and any(y.key == "code" for y in e[2]))
                    if n != 1:
                        self.add("tree", api, "once", x.node, f"the code is handed to the tree {n} times on a path")

    # ---- glue code of the classes
    def store(self) -> None:
        texts, _ = self.accumulators()
        for f in self.p.funcs.values():
            if not library(f) or f.parent is not None:
                continue
            accs = {t for n in self.p.own_nodes(f) if isinstance(n, (ast.AugAssign, ast.Assign)) for x in ([n.target] if isinstance(n, ast.AugAssign) else n.targets) if isinstance(x, ast.Attribute) and (t := x.attr) in texts}
            if not accs or f.name == "__init__":
                continue
            callers = [(g, n) for g in self.p.funcs.values() if library(g) for n in self.p.own_nodes(g) if isinstance(n, ast.Call) and f in self.p.callees(g.module, n)[0]]
            self.rep.count("obligations")
            if not callers:
                self.add("store", f, "unused", None, f"nothing calls the function which stores `{', '.join(sorted(accs))}`")
            for g, n in callers:
                if g.name != "pydef_lines":
                    continue
                st: Any = n
                while not isinstance(self.p.parent_of.get(st), (ast.FunctionDef, ast.AsyncFunctionDef)):
                    st = self.p.parent_of.get(st)
                    if st is None:
                        break
                if st is None or not isinstance(st, ast.Expr):
                    self.add("store", g, f.name, n, "the glue code of the class is stored on some paths only")
                    continue
                # a return before it must delegate to another element
                for r in self.p.own_nodes(g):
                    if isinstance(r, ast.Return) and r.lineno < n.lineno and r.value is not None and not (isinstance(r.value, ast.List) and not r.value.elts):
                        free = [x.id for x in ast.walk(r.value) if isinstance(x, ast.Name)]
                        src = " ".join(ast.unparse(x) for x in self.p.own_nodes(g) if isinstance(x, (ast.AugAssign, ast.Assign)) and any(isinstance(y, ast.Name) and y.id in free for y in ast.walk(x)))
                        if "pydef_lines" not in ast.unparse(r.value) + src:
                            self.add("store", g, f.name + ":return", r, "bindings are returned before the glue code of the class is stored")
            # what is stored
            r2 = self.run_paths(f, inline=lambda g: False)
            if r2 is None:
                continue
            for x in r2[0]:
                for e in x.st.events:
                    if e[0] == "setattr" and e[1].split(".")[-1] in accs:
                        self.rep.count("obligations")
                        if not any(y.key.endswith("." + e[1].split(".")[-1]) for y in self.parts(e[2][0], x.st, r2[1])):
                            self.add("store", f, "lost", e[3], "the glue code stored before is lost")

    def run(self) -> None:
        self.glue()
        self.outputs()
        self.process()
        self.api()
        self.unit()
        self.custom()
        self.tree()
        self.store()


def run(p: Project, tier: str) -> Report:
    rep = Report("C25", __doc__.split("\n\n")[1].replace("\n", " "))
    Rule(p, rep).run()
    return rep
