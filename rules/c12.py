"""C12: traversal and parent links cover the whole parsed tree.

The child attributes of a class of the tree are its properties which have a setter and hold an element (or a list of elements) of the tree.
(visit)   the traversal of each class, interpreted path by path with its helpers inlined: the visitor is told of the element itself first and once; each child is
          visited once (each element of a list of children), one level deeper, with the same visitor, between one 'before' and one 'after' event; a child may be
          left out only on a path which knows that it is absent
(fill)    the visitor which sets the parents gives an element the innermost open element, opens it before its children and closes it after them
(unit)    a parsed unit is given its parents after it was filled
(setter)  storing a child through its property makes the owner its parent, on each path; a property that does not is only used with a child made for that owner
(mutate)  out of the parser, a child is added in place to an element only together with its parent
(scope)   the ancestors are followed up to the root; the scope takes the part of each of them, in order from the root; the elements which open a scope are the
          structs, namespaces and enums, under their own name"""
from __future__ import annotations

import ast
import re
from typing import Any, Iterable, Optional

from rules.c15 import library
from vlib.project import Cls, Func, Project
from vlib.report import Report
from vlib.trans import Exit, Explosion, Loop, State, Trans, Val, k, sy

TECHNIQUE = "path-sensitive abstract interpretation of the traversal and of the property setters of each class of the tree (enumerated from the class table), of the parent-setting visitor and of the scope computation"
LEVEL_NOTE = "Which attributes hold children is derived from the class definitions; the copies made by deepcopy (whose children keep the original's parent by design) are out of its reach."

# a child which a class inherits and never has
NEVER = {("CppConstructorDecl", "return_type"): "a constructor has no return type"}

EV = "CppElementsVisitorEvent"


def last(name: str) -> str:
    return name.rsplit(".", 1)[-1]


def tree_classes(p: Project) -> list[str]:
    return [c for c in p.classes if any(last(m) == "CppElement" for m in p.mro(c)) and not re.search(r"\btests?\b|_test$", p.classes[c].module.name)]


def children(p: Project, full: str, tree: set[str]) -> dict[str, tuple[bool, Cls, Func, Func]]:
    """attribute → (is a list, defining class, getter, setter)"""
    out: dict[str, tuple[bool, Cls, Func, Func]] = {}
    for c in p.mro(full):
        if c not in p.classes:
            continue
        gets: dict[str, Func] = {}
        for f in p.funcs.values():
            if f.cls is None or f.cls is not p.classes[c] or f.parent is not None:
                continue
            decs = [ast.unparse(d) for d in f.node.decorator_list]
            if "property" in decs:
                gets[f.name] = f
            for d in decs:
                if d == f.name + ".setter" and f.name in gets and f.name not in out and f.name != "parent":
                    ann = gets[f.name].node.returns
                    names = set(re.findall(r"\w+", ast.unparse(ann))) if ann is not None else set()
                    if names & tree:
                        out[f.name] = (bool(names & {"list", "List", "Sequence"}), p.classes[c], gets[f.name], f)
    return out


class Flat(Trans):
    """nothing is inlined"""

    def helper(self, *a: Any, **kw: Any) -> bool:
        return False

    def exits(self, f: Func) -> list[Exit]:
        try:
            return self.run(f)
        except (Explosion, RecursionError):
            return []


class Scope(Trans):
    """what is known about the element is kept apart, and what the loops run over is recorded"""

    def merge(self, sts: list[State]) -> list[State]:
        groups: dict[frozenset, list[State]] = {}
        for s in sts:
            groups.setdefault(frozenset((a, b) for a, b in s.facts.items() if re.search(r"enum|CppDecl|hasattr|include_self$", a)), []).append(s)
        return [x for g in groups.values() for x in super(Scope, self).merge(g)]

    def loop(self, n: ast.AST, src: Optional[Val], elem: Optional[Val], body: Any, st: State, fr: int, f: Func, orelse: list[ast.stmt]) -> list:
        if src is not None:
            st.events += (("src", src.key, (), n, k(None)),)
        return super().loop(n, src, elem, body, st, fr, f, orelse)


class Visit(Trans):
    """records the calls of the visitor and the visits of the children"""

    def __init__(self, p: Project, visitor: str, method: str):
        super().__init__(p, inline=lambda g: True)
        self.visitor, self.method = visitor, method

    def stmt(self, n: ast.stmt, st: State, fr: int, f: Func) -> list:
        """a loop over a literal is unrolled"""
        if isinstance(n, ast.For) and isinstance(n.iter, (ast.Tuple, ast.List)) and len(n.iter.elts) <= 8 and not n.orelse and not any(isinstance(x, ast.Starred) for x in n.iter.elts):
            live, out = [st], []
            for x in n.iter.elts:
                nxt = []
                for s in live:
                    for v, s2 in self.ev(x, s, fr, f):
                        self.assign(n.target, v, s2, fr, f)
                        for o, w, s3, nd in self.block(n.body, s2, fr, f):
                            if o in ("", "continue"):
                                nxt.append(s3)
                            else:
                                out.append(("" if o == "break" else o, w, s3, nd))
                live = nxt
            return out + [("", k(None), s, n) for s in live]
        return super().stmt(n, st, fr, f)

    def call(self, e: ast.Call, b: Optional[Val], args: list[Val], kw: dict[str, Val], s: State, fr: int, f: Func) -> list:
        if isinstance(e.func, ast.Name) and e.func.id == "getattr" and len(args) == 2 and args[1].kind == "k" and isinstance(args[1].data, str):
            return [(self.getattr(args[0], args[1].data, s), s)]
        al = tuple(args) + tuple(kw[x] for x in sorted(kw, reverse=True))
        if isinstance(e.func, ast.Attribute) and e.func.attr == self.method and b is not None and b.key != "self" and not (isinstance(e.func.value, ast.Call) and ast.unparse(e.func.value.func) == "super") and not b.key.startswith("<class") and not (args and args[0].key == "self"):
            s.events += (("call", "VISIT " + norm(b.key), al, e, k(None)),)
            return [(k(None), s)]
        if isinstance(e.func, ast.Name):
            fv = self.e_Name(e.func, s, fr, f)[0][0]
            if fv.key == self.visitor:
                # the occurrence number keeps two calls apart when they leave a loop
                s.events += (("call", "FIRE " + (al[1].key if len(al) > 1 else "?") + (f" on {al[0].key}" if al and al[0].key != "self" else ""), al, e, k(None)),)
                return [(k(None), s)]
        return super().call(e, b, args, kw, s, fr, f)


def norm(key: str) -> str:
    return re.sub(r"\bself\._(?!_)", "self.", key)


def absent(facts: dict[str, bool], attr: str) -> bool:
    for a, v in facts.items():
        n = norm(a)
        if re.fullmatch(rf"hasattr\(self,'_?{attr}'\)", n) and v is False:
            return True
        if n in (f"eq(None,self.{attr})", f"eq(self.{attr},None)") and v is True:
            return True
        if n in (f"self.{attr}", f"getattr(self,'{attr}',None)", f"getattr(self,'_{attr}',None)") and v is False:
            return True
        if re.fullmatch(rf"eq\(None,getattr\(self,'_?{attr}',None\)\)", n) and v is True:
            return True
    return False


def check_visit(p: Project, rep: Report, full: str, kids: dict[str, tuple[bool, Cls, Func, Func]], method: str) -> None:
    f = p.find_method(full, method)
    name = last(full)
    if f is None or len(f.params) < 3:
        return
    visitor, depth = f.params[1], f.params[2]
    t = Visit(p, visitor, method)
    t.self_class = full  # type: ignore
    rep.count("traversals interpreted")
    try:
        exits = t.run(f)
    except (Explosion, RecursionError):
        rep.notes.append(f"{name}.{method}: too many paths")
        return
    for x in exits:
        if x.kind == "raise":
            continue
        rep.count("traversal paths")
        evs = [e for e in x.st.events if e[0] in ("call", "loop:call") and (e[1].startswith("FIRE") or e[1].startswith("VISIT"))]
        fires = [e for e in evs if e[1].startswith("FIRE")]
        on = [e for e in fires if e[1] == f"FIRE {EV}.OnElement"]
        before = [e for e in fires if e[1] == f"FIRE {EV}.OnBeforeChildren"]
        after = [e for e in fires if e[1] == f"FIRE {EV}.OnAfterChildren"]
        visits = [e for e in evs if e[1].startswith("VISIT")]
        where = f.loc(x.node) if x.node is not None else f.loc()
        if len(on) != 1 or not evs or evs[0] is not on[0] or on[0][0] != "call":
            rep.add("visit", f"{name} OnElement", where, f"on a path of the traversal of {name}, the visitor is not told of the element itself exactly once before anything else")
        for e in fires:
            if len(e[2]) < 3 or e[2][0].key != "self" or e[2][2].key != depth:
                rep.add("visit", f"{name} event arguments", f.loc(e[3]), f"the visitor gets {', '.join(a.key for a in e[2])[:80]} instead of the element, the event and the depth")
        if any(e[0] != "call" for e in fires):
            rep.add("visit", f"{name} event in a loop", f.loc(fires[0][3]), f"an event of {name} is sent from a loop")
        if visits or kids:
            if len(before) > 1 or len(after) > 1 or len(before) != len(after):
                rep.add("visit", f"{name} before/after", where, f"on a path of the traversal of {name}, there are {len(before)} 'before children' and {len(after)} 'after children' events")
            elif visits and not before:
                rep.add("visit", f"{name} before/after", where, f"on a path of the traversal of {name}, children are visited without the 'before children' event")
            elif before and (evs.index(before[0]) > min([evs.index(v) for v in visits] or [10**6]) or evs.index(after[0]) < max([evs.index(v) for v in visits] or [-1]) or evs.index(after[0]) < evs.index(before[0])):
                rep.add("visit", f"{name} before/after", where, f"on a path of the traversal of {name}, a child is visited out of the 'before children' / 'after children' events")
        for v in visits:
            if len(v[2]) < 2 or v[2][0].key != visitor or v[2][1].key not in (f"({depth}Add1)", f"(1Add{depth})"):
                rep.add("visit", f"{name} child arguments", f.loc(v[3]), f"a child of {name} is visited with {', '.join(a.key for a in v[2])[:80]} instead of the visitor and the next depth")
        for a, (is_list, _c, _g, _s) in kids.items():
            if absent(x.st.facts, a) or any((last(m), a) in NEVER for m in p.mro(full)):
                continue
            if is_list:
                mine = [v for v in visits if re.fullmatch(rf"VISIT (?:list\()?self\.{a}\)?\[<\w+>\]", v[1]) and v[0] == "loop:call"]
                if len(mine) != 1:
                    rep.add("visit", f"{name}.{a}", where, f"the traversal of {name} does not visit each element of '{a}' exactly once")
            else:
                mine = [v for v in visits if v[1] == f"VISIT self.{a}"]
                if len(mine) != 1 or mine[0][0] != "call":
                    rep.add("visit", f"{name}.{a}", where, f"on a path of the traversal of {name} which does not know that '{a}' is absent, it is visited {len(mine)} times")
        for v in visits:
            m = re.match(r"VISIT (?:list\()?self\.(\w+)", v[1])
            if m is None or m.group(1) not in kids:
                if not (m is not None and p.find_method(full, m.group(1)) is not None):
                    rep.notes.append(f"{name}: visits {v[1][6:60]}, which is not a stored child")
    for lp in t.loops.values():
        src = norm(lp.source.key) if lp.source is not None else ""
        m = re.fullmatch(r"(?:list\()?self\.(\w+)\)?", src)
        if m is None or m.group(1) not in kids:
            continue
        rep.count("loops over children")
        for r in lp.recs:
            n = [e for e in r.events if e[1].startswith("VISIT")]
            if r.outcome not in ("next", "continue") and r.outcome != "raise":
                rep.add("visit", f"{name}.{m.group(1)}", lp.func.loc(lp.node), f"the loop over '{m.group(1)}' of {name} can stop before its end")
            elif r.outcome != "raise" and len(n) != 1:
                rep.add("visit", f"{name}.{m.group(1)}", lp.func.loc(lp.node), f"a path through the loop over '{m.group(1)}' of {name} visits its element {len(n)} times")


def sets_parent(p: Project, f: Func, value: str, owner: str, fill: str) -> Optional[list[str]]:
    """how each path of f makes `owner` the parent of `value`; None: some path does not"""
    t = Trans(p, inline=lambda g: g.module is f.module and g.name != fill)
    t.self_class = None  # type: ignore
    how: list[str] = []
    try:
        exits = t.run(f)
    except (Explosion, RecursionError):
        return ["?"]
    for x in exits:
        if x.kind == "raise":
            continue
        ok = ""
        stored = -1
        for i, e in enumerate(x.st.events):
            if e[0] == "setattr" and re.sub(r"\b_(?=\w)", "", e[1]) == f"{owner}.{value}" or e[0] == "setattr" and e[1] == f"{owner}._{value}":
                stored = i
            if e[0] in ("call", "loop:call") and last(str(e[1])) == fill and stored >= 0:
                ok = "fill"
            if e[0] in ("setattr", "loop:setattr") and str(e[1]).endswith(".parent") and e[2] and e[2][0].key == owner:
                ok = ok or "parent"
        if not ok:
            return None
        how.append(ok)
    return how


def check_setters(p: Project, rep: Report, tree: list[str], kids_of: dict[str, dict[str, tuple[bool, Cls, Func, Func]]], fill: str) -> None:
    done: dict[tuple[str, str], Any] = {}
    weak: dict[str, tuple[Cls, Func]] = {}
    for full in tree:
        for a, (is_list, c, _g, s) in kids_of[full].items():
            if (c.name, a) in done:
                continue
            done[(c.name, a)] = 1
            rep.count("setters of children")
            if len(s.params) < 2:
                continue
            how = sets_parent(p, s, a, "self", fill)
            if how is None:
                weak[a] = (c, s)
    for a, (c, s) in weak.items():
        # every store of that attribute from elsewhere: the stored value was made for the owner
        stores = 0
        for f in p.funcs.values():
            if not library(f) or (f.cls is c and f.name == a):
                continue
            for n in p.own_nodes(f):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == a for t in n.targets):
                    t0 = next(t for t in n.targets if isinstance(t, ast.Attribute) and t.attr == a)
                    owner = ast.unparse(t0.value)  # type: ignore
                    stores += 1
                    ok = False
                    if isinstance(n.value, ast.Call):
                        targets, _ = p.callees(f.module, n.value)
                        for g in targets:
                            if "parent" not in g.params:
                                continue
                            i = g.params.index("parent")
                            got = next((kw.value for kw in n.value.keywords if kw.arg == "parent"), n.value.args[i] if i < len(n.value.args) else None)
                            ok = got is not None and ast.unparse(got) == owner and born_with_parent(p, g)
                    elif any(isinstance(m, ast.Assign) and any(isinstance(u, ast.Attribute) and u.attr == "parent" for u in m.targets) and ast.unparse(m.value) == owner for m in p.own_nodes(f)):
                        ok = True
                    rep.count("stores through a property that sets no parent")
                    if not ok:
                        rep.add("setter", f"{c.name}.{a} stored in {f.qual}", f.loc(n), f"the setter of {c.name}.{a} does not set the parent of what it stores, and {f.qual} stores there something that was not made for {owner}")
        if stores == 0:
            rep.add("setter", f"{c.name}.{a}", s.loc(), f"on a path of the setter of {c.name}.{a}, the owner does not become the parent of what is stored")
    rep.sample({"properties whose setter sets no parent": sorted(f"{c.name}.{a}" for a, (c, _) in weak.items())})


def born_with_parent(p: Project, g: Func) -> bool:
    for x in Flat(p).exits(g):
        if x.kind != "return":
            continue
        if x.val.kind == "k":
            continue
        if x.val.kind == "ref" and x.st.heap.get(x.val.data, ("",))[0] == "obj":
            at = x.st.heap[x.val.data][2].get("parent")
            if at is None or at.key != "parent":
                return False
        elif not any(e[0] == "setattr" and e[1] == x.val.key + ".parent" and e[2][0].key == "parent" for e in x.st.events):
            return False
    return True


def check_fill(p: Project, rep: Report, base: str, fill: str, method: str) -> None:
    f = p.find_method(base, fill)
    if f is None:
        return
    # the visitor: a nested function or a method given to the traversal
    cand: list[Func] = [g for g in p.funcs.values() if g.parent is f]
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == method:
            break
    else:
        rep.add("fill", f"{fill} traversal", f.loc(), f"{f.qual} does not traverse the element")
        return
    if len(cand) != 1 or len(cand[0].params) < 2:
        rep.notes.append(f"{f.qual}: no single visitor to interpret")
        return
    g = cand[0]
    elem, event = g.params[0], g.params[1]
    t = Trans(p, inline=lambda h: h.module is f.module)
    exits = t.run(g)
    rep.count("parent-setting visitor paths", len(exits))

    def which(x: Exit) -> Optional[str]:
        for a, v in x.st.facts.items():
            m = re.match(r"eq\((.*)\)$", a)
            if v is True and m and f"{EV}." in a and event in a:
                return re.search(rf"{EV}\.(\w+)", a).group(1)  # type: ignore
        return None

    seen: dict[str, list[Exit]] = {}
    for x in exits:
        if x.kind == "raise":
            continue
        w = which(x)
        if w:
            seen.setdefault(w, []).append(x)
    not_seen = [x for x in exits if x.kind != "raise" and which(x) is None]
    for w, want in (("OnElement", "set"), ("OnBeforeChildren", "push"), ("OnAfterChildren", "pop")):
        xs = seen.get(w, [])
        if not xs:
            # the last event may be what remains when the others are excluded
            xs = [x for x in not_seen if sum(1 for a, v in x.st.facts.items() if f"{EV}." in a and v is False) == 2 and not any(f"{EV}.{w}" in a for a in x.st.facts)]
            if not xs:
                rep.add("fill", w, g.loc(), f"the visitor that sets the parents does nothing on {w}")
                continue
        for x in xs:
            sets = [e for e in x.st.events if e[0] == "setattr" and e[1] == f"{elem}.parent"]
            pushes = [e for e in x.st.events if e[0] == "call" and last(str(e[1])) == "append"]
            pops = [e for e in x.st.events if e[0] == "call" and last(str(e[1])) == "pop"]
            dels = [e for e in x.st.events if e[0] == "del"]
            if want == "set":
                if len(sets) != 1:
                    rep.add("fill", "OnElement", g.loc(x.node) if x.node else g.loc(), "on a path, the visitor does not set the parent of the element it is told of")
                elif not re.search(r"\[-1\]$|\[\(?UnarySub1\)?\]$", sets[0][2][0].key):
                    rep.add("fill", "OnElement parent", g.loc(sets[0][3]) if sets[0][3] is not None else g.loc(), f"the parent given to an element is {sets[0][2][0].key[:60]} and not the innermost open element")
                if pushes or pops:
                    rep.add("fill", "OnElement stack", g.loc(), "the stack of parents changes when an element is visited")
            elif want == "push":
                if len(pushes) != 1 or [a.key for a in pushes[0][2]] != [elem] or pops:
                    rep.add("fill", "OnBeforeChildren", g.loc(), "the element is not opened (exactly once) before its children")
            elif (len(pops) != 1 or pops[0][2]) and not dels or pushes:
                if not any(isinstance(n, ast.Delete) for n in ast.walk(g.node)) or pushes:
                    rep.add("fill", "OnAfterChildren", g.loc(), "the element is not closed (exactly once) after its children")
    # the parent of the top element is kept (None for a unit)
    for x in Flat(p).exits(f):
        if x.kind == "raise":
            continue
        rep.count("parent filling paths")
    stacks = [n for n in p.own_nodes(f) if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.List) and len(n.value.elts) == 1]
    for n in stacks:
        v = n.value.elts[0]  # type: ignore
        vals: list[str] = [ast.unparse(v)]
        if isinstance(v, ast.Name):
            vals = [ast.unparse(m.value) for m in p.own_nodes(f) if isinstance(m, (ast.Assign, ast.AnnAssign)) and m.value is not None and any(isinstance(t2, ast.Name) and t2.id == v.id for t2 in (m.targets if isinstance(m, ast.Assign) else [m.target]))]
        for s in vals:
            if "self.parent" not in s and s != "None" and "None" not in s:
                rep.add("fill", "top parent", f.loc(n), f"the top element is given {s[:50]} as parent")
        if vals and not any("self.parent" in s for s in vals):
            rep.add("fill", "top parent", f.loc(n), "the top element loses its parent when the parents of its children are set")


def check_units(p: Project, rep: Report, fill: str) -> None:
    for f in p.funcs.values():
        if not library(f) or f.cls is not None:
            continue
        made = [n for n in p.own_nodes(f) if isinstance(n, ast.Call) and (p.constructed_class(f.module, n) or "").endswith(".CppUnit")]
        if not made:
            continue
        rep.count("functions that make a unit")
        for x in Flat(p).exits(f):
            if x.kind != "return" or x.val.kind not in ("ref", "sy"):
                continue
            idx = [i for i, e in enumerate(x.st.events) if e[0] == "call" and last(str(e[1])) == fill]
            fills = [i for i, e in enumerate(x.st.events) if e[0] == "call" and any(a.key == x.val.key for a in e[2]) and last(str(e[1])) != fill]
            if not idx or (fills and idx[-1] < fills[-1]):
                rep.add("unit", f.qual, f.loc(x.node) if x.node else f.loc(), f"on a path of {f.qual}, the unit that is returned was not given its parents after it was filled")


def check_mutations(p: Project, rep: Report, attrs: set[str]) -> None:
    parser = {f for f in p.funcs.values() if f.module.name.endswith("cpp_types_parse")}
    for f in p.funcs.values():
        if not library(f) or f in parser:
            continue
        for n in p.own_nodes(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "insert", "extend") and isinstance(n.func.value, ast.Attribute) and n.func.value.attr.lstrip("_") in attrs and n.args:
                owner = ast.unparse(n.func.value.value)
                bt = p.mtype(f, n.func.value.value) if hasattr(p, "mtype") and callable(getattr(p, "mtype", None)) else None
                _ = bt
                val = ast.unparse(n.args[-1])
                rep.count("children added in place")
                ok = False
                for m in p.own_nodes(f):
                    if isinstance(m, ast.Assign) and any(ast.unparse(t) == val + ".parent" for t in m.targets) and ast.unparse(m.value) == owner:
                        ok = True
                    if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr == "fill_children_parents" and ast.unparse(m.func.value) == owner and m.lineno >= n.lineno:
                        ok = True
                if not ok:
                    rep.add("mutate", f"{f.qual} {n.func.value.attr}", f.loc(n), f"{f.qual} adds {val[:40]} to the children of {owner} and {owner} does not become its parent")


def check_scope(p: Project, rep: Report, base: str, tree: list[str]) -> None:
    f = p.find_method(base, "ancestors_list")
    if f is not None:
        t = Trans(p, inline=lambda g: False)
        exits = t.run(f)
        for lp in t.loops.values():
            if not isinstance(lp.node, ast.While):
                continue
            rep.count("ancestor loops")
            for r in lp.recs:
                if r.outcome == "raise":
                    continue
                cur = [v.key for l in r.lists.values() for v in l]
                if r.outcome not in ("next", "continue"):
                    if not any(a.startswith("eq(None,") and v for a, v in r.facts.items()):
                        rep.add("scope", "ancestors stop", f.loc(lp.node), "the list of ancestors can end before the root")
                elif len(cur) != 1 or not any(v.key == cur[0] + ".parent" for v in r.final.values()):
                    rep.add("scope", "ancestors step", f.loc(lp.node), "a step of the list of ancestors does not add exactly one element and go on with its parent")
        inc = f.params[1] if len(f.params) > 1 else ""
        for x in exits:
            if x.st.facts.get(inc) is False and any(a in ("eq(None,self)",) for a in x.st.facts) or x.st.facts.get(inc) is True and "eq(None,self.parent)" in x.st.facts:
                rep.add("scope", "ancestors start", f.loc(), "the list of ancestors starts with the element itself when it is excluded, or leaves it out when it is included")
    # the part of the scope opened by each class
    want = {"CppStruct": ("ClassOrStruct", "class_name"), "CppNamespace": ("Namespace", "ns_name"), "CppEnum": ("Enum", "enum_name")}
    for full in tree:
        g = p.find_method(full, "self_scope")
        if g is None:
            continue
        names = [last(m) for m in p.mro(full)]
        exp = next((want[m] for m in names if m in want), None)
        rep.count("classes whose scope part is decided")
        for x in Trans(p, inline=lambda h: h.module is g.module).run(g):
            if x.kind == "raise":
                continue
            possible = True
            extra = False
            for a, v in x.st.facts.items():
                m = re.match(r"isinstance\(self,(.*)\)$", a)
                if m:
                    cls = [last(c.strip()) for c in m.group(1).strip("()").split(",") if c.strip()]
                    if any(c in names for c in cls) != v:
                        possible = False
                else:
                    extra = True
            if not possible:
                continue
            new = next((e for e in x.st.events if e[0] == "new" and last(str(e[1])) == "CppScopePart"), None)
            got = None
            if x.val.kind == "ref" and new is not None:
                got = tuple(a.key for a in new[2][:2])
            if x.val.key == "None":
                got = ()
            if got is None:
                continue
            ok = (got == () and exp is None) or (exp is not None and len(got) == 2 and last(got[0]) == exp[0] and got[1] in (f"self.{exp[1]}", f"self._{exp[1]}"))
            if not ok and not (extra and got == () and exp is None):
                rep.add("scope", f"part of {last(full)}", g.loc(x.node) if x.node else g.loc(), f"the scope part of a {last(full)} is {got or 'none'} instead of {exp or 'none'}")
    h = p.find_method(base, "cpp_scope")
    if h is not None:
        t = Scope(p, inline=lambda g: g.module is h.module and g.name not in ("ancestors_list", "self_scope"), max_states=3000)
        try:
            exits = t.run(h)
        except (Explosion, RecursionError):
            rep.notes.append("cpp_scope: too many paths")
            return
        used = 0
        for lp in t.loops.values():
            if lp.func.module is not h.module:
                continue
            src = lp.source.key if lp.source is not None else ""
            if "ancestors_list(" not in src:
                continue
            used += 1
            rep.count("scope loops")
            base_src = src
            if not re.fullmatch(r"(?:list\(|reversed\()*self\.ancestors_list\((?:include_self)\)\)*(?:\[:-2\])?\)*", base_src):
                rep.add("scope", "scope ancestors", h.loc(lp.node), f"the scope is made of {base_src[:70]} and not of all the ancestors")
            for r in lp.recs:
                vals = [v.key for l in r.lists.values() for v in l]
                none = any(v and "self_scope()" in a and "None" in a for a, v in r.facts.items()) or any(not v and a.endswith("self_scope()") for a, v in r.facts.items())
                if r.outcome == "raise":
                    continue
                if r.outcome not in ("next", "continue"):
                    rep.add("scope", "scope loop stops", h.loc(lp.node), "the scope can leave out the ancestors that follow one of them")
                elif not none and (len(vals) != 1 or not vals[0].endswith(".self_scope()")):
                    rep.add("scope", "scope loop", h.loc(lp.node), "on a path which does not know that an ancestor opens no scope, its part is not added to the scope exactly once")
        for x in exits:
            if x.kind != "return":
                continue
            rep.count("scope paths")
            ev = [e for e in x.st.events if e[0] == "call"]
            if any(last(str(e[1])) == "ancestors_list" for e in ev):
                rev = sum(1 for e in ev if last(str(e[1])) in ("reverse", "reversed"))
                calls = [e for e in ev if last(str(e[1])) == "ancestors_list"]
                if used and rev != 1 and "[::-1]" not in ast.unparse(h.node) and "insert(0" not in ast.unparse(h.node):
                    rep.add("scope", "scope order", h.loc(), "the parts of the scope are not in the order from the root to the element")
                if any([a.key for a in e[2]] != [h.params[1]] for e in calls):
                    rep.add("scope", "scope include_self", h.loc(calls[0][3]), "the ancestors are not asked with or without the element itself as the caller wants")
        for x in exits:
            srcs = [str(e[1]) for e in x.st.events if e[0] == "src" and "ancestors_list(" in str(e[1])]
            if x.kind != "return" or not srcs:
                continue
            enum = [v for a, v in x.st.facts.items() if "is_enum_class()" in a]
            dec = [v for a, v in x.st.facts.items() if a.startswith("isinstance(self,CppDecl")]
            if any("[:-2]" in a for a in srcs):
                if enum != [False] or dec != [True]:
                    rep.add("scope", "enum leak", h.loc(), "ancestors are dropped for something else than the value of an enum without class")
            elif enum == [False]:
                rep.add("scope", "enum leak", h.loc(), "the values of an enum without class do not belong to the scope around it")


def run(p: Project, tier: str) -> Report:
    rep = Report("C12", __doc__ or "")
    tree = tree_classes(p)
    names = {last(c) for c in tree}
    base = next((c for c in tree if last(c) == "CppElement"), None)
    if base is None:
        rep.errors.append("no CppElement class")
        return rep
    method, fill = "visit_cpp_breadth_first", "fill_children_parents"
    kids_of = {c: children(p, c, names) for c in tree}
    for c in tree:
        check_visit(p, rep, c, kids_of[c], method)
    check_setters(p, rep, tree, kids_of, fill)
    check_fill(p, rep, base, fill, method)
    check_units(p, rep, fill)
    attrs = {a for d in kids_of.values() for a in d}
    check_mutations(p, rep, attrs)
    check_scope(p, rep, base, tree)
    rep.count("classes of the tree", len(tree))
    rep.sample({last(c): {a: ("list" if v[0] else "element") for a, v in kids_of[c].items()} for c in tree if kids_of[c]})
    return rep
