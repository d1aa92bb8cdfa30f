"""C23: the amalgamation inlines each local header exactly once and keeps every line.

The recursive function which inlines headers is found (a recursive function that loops over the lines of a file), and interpreted into terms (vlib/trans.py):
(visited)  every path which reads the file has tested its canonical name (realpath) against the list which is handed down the recursion, and has added
           that same name to the list before the first recursive call; a path which returns nothing without reading has found it in the list
(line)     each line of the file is, on each path through the loop, kept once and as it is, or replaced by the result of the recursion; it is dropped only
           when that result is empty, when it is `#pragma once`, or when the same system include was written
(recurse)  each recursive call hands down the same lists; each first call starts with new lists
(result)   every path which read the file returns what was accumulated, in order
(missing)  no path swallows a header which is not found"""
from __future__ import annotations

import ast
import re
from typing import Optional

from rules.c15 import library, line_loop
from vlib.project import Func, Project
from vlib.report import Report
from vlib.trans import Explosion, Loop, Rec, Trans, Val

TECHNIQUE = "path-sensitive abstract interpretation of the recursive inliner (term per line, visited-set discipline on every path, one record per class of line)"
LEVEL_NOTE = "The resolution of include paths and the recognition of an include directive (spelling, comments) are outside; conditional compilation is a known finding."


def recursive(p: Project, f: Func) -> Optional[set[Func]]:
    """the functions of the module by which f calls itself again"""
    out: dict[Func, set[Func]] = {}

    def calls(g: Func) -> set[Func]:
        if g not in out:
            out[g] = {t for n in p.own_nodes(g) if isinstance(n, ast.Call) for t in p.callees(g.module, n)[0] if t.module is g.module}
        return out[g]

    reach: set[Func] = set()
    todo = list(calls(f))
    while todo:
        g = todo.pop()
        if g not in reach:
            reach.add(g)
            todo += calls(g)
    if f not in reach:
        return None
    return {g for g in reach if f in {x for x in _closure(calls, g)}} | {f}


def _closure(calls, g: Func) -> set[Func]:  # type: ignore
    r: set[Func] = set()
    todo = list(calls(g))
    while todo:
        h = todo.pop()
        if h not in r:
            r.add(h)
            todo += calls(h)
    return r


def flat(v) -> list[Val]:  # type: ignore
    return [y for x in v for y in (flat(x.data) if x.kind == "cat" else [x])]


def receiver(e) -> Optional[str]:  # type: ignore
    m = re.match(r"(.*)\.(append|add|insert|extend|update)\(", e[4].key) if len(e) > 4 and e[1].rsplit(".", 1)[-1] in ("append", "add", "insert", "extend", "update") else None
    return m.group(1) if m else None


def judge(p: Project, rep: Report, f: Func, group: set[Func]) -> bool:
    mod = f.module
    t = Trans(p, lambda g: g.module is mod and g is not f and (g in group or sum(isinstance(n, ast.stmt) for n in ast.walk(g.node)) <= 14) and not g.name.startswith("_decorate"), max_steps=250000)
    try:
        exits = t.run(f)
    except Explosion:
        rep.notes.append(f"{f.qual}: too many paths: not judged")
        return False
    loops = [L for L in t.loops.values() if line_loop(L) and L.recs]
    if not loops:
        return False
    rec_calls = lambda evs: [e for e in evs if e[0] in ("call", "loop:call") and e[1] == f.qual]  # noqa: E731
    if not any(rec_calls(r.events) for L in loops for r in L.recs):
        return False
    reported: set[str] = set()

    def bad(rule: str, what: str, node: ast.AST, msg: str) -> None:
        if (key := f"{rule}|{what}") not in reported:
            reported.add(key)
            rep.add(rule, f"{f.qual}: {what}", f.loc(node), msg)

    params = [a for a in f.params]
    handed: dict[str, int] = {}
    # parameters handed down unchanged
    for i, a in enumerate(params):
        vals = set()
        for L in loops:
            for r in L.recs:
                for e in rec_calls(r.events):
                    vals.add(e[2][i].key if i < len(e[2]) else "?")
        if vals == {a}:
            handed[a] = i
    seen_lists: set[str] = set()
    ok_exits = 0
    for x in exits:
        rep.count("paths")
        evs = x.st.events
        opened = [(n, e) for n, e in enumerate(evs) if e[0] == "call" and e[1].endswith("open") and e[2]]
        if x.kind == "raise":
            continue
        tests = {m.group(1): (m.group(2), b) for q, b in x.st.facts.items() if (m := re.fullmatch(r"in\((.*),(\w+)\)", q)) and m.group(2) in params}
        if not opened:
            if not any(b for _, b in tests.values()):
                bad("missing", "returned without reading", x.node, "a path returns without reading the header, although it was not inlined before")
            continue
        n0, ev = opened[0]
        name = ev[2][0].key
        hit = tests.get(name)
        if hit is None or hit[1]:
            bad("visited", "not tested", x.node, f"the file is read although its name ({name[:60]}) was not looked for in the list of inlined files")
            continue
        lst = hit[0]
        seen_lists.add(lst)
        if lst not in handed:
            bad("recurse", f"{lst} not handed down", x.node, f"the list of inlined files ({lst}) is not handed down the recursion")
        if not re.search(r"realpath\(|\.resolve\(", name):
            bad("visited", "not canonical", x.node, f"a header is remembered under a name which is not canonical ({name[:60]}): the same file reached by another path is inlined twice")
        adds = [n for n, e in enumerate(evs) if e[0] == "call" and receiver(e) == lst and any(v.key == name for v in e[2])]
        first_rec = next((n for n, e in enumerate(evs) if e in rec_calls(evs)), len(evs))
        if not adds or adds[0] > first_rec:
            bad("visited", "not remembered", x.node, "the header is not added to the list of inlined files before what it includes: it is inlined twice, or for ever")
        # result
        parts = flat([x.val])
        stars = [i for i, v in enumerate(parts) if v.key.startswith("star[") and any(v.key.startswith(f"star[{L.key[:60]}") or L.key in v.key for L in loops)]
        if stars:
            ok_exits += 1
        elif x.val.kind == "k" and x.val.data in ("", None):
            if not any("star[" in q for q in x.st.facts) and not any(L.source is not None and "star[" in L.source.key for L in t.loops.values()):
                bad("result", "lost", x.node, "the header was read and remembered, but nothing is returned")
        elif any("star[" in v.key for v in parts):
            ok = re.sub(r"^'\\?n?'\.join\(|^''\.join\(", "", x.val.key)
            if re.match(r"list\(|&", ok) or ok != x.val.key:
                ok_exits += 1
            else:
                bad("result", "altered", x.node, f"the text of a header is altered: {x.val.key[:80]}")
        else:
            bad("result", "lost", x.node, f"what was read is not returned ({x.val.key[:60]})")
    # lines
    ext: set[str] = set()
    for L in loops:
        for r in L.recs:
            for e in r.events:
                rcv = receiver(e)
                if rcv in params and rcv not in seen_lists:
                    ext.add(rcv or "")
    for L in loops:
        assert L.elem is not None
        line = L.elem.key if L.elem.kind != "tup" else L.elem.data[1].key
        for r in L.recs:
            rep.count("paths_per_line")
            if r.outcome == "raise":
                continue
            if r.outcome in ("break", "return"):
                bad("line", "loop left", L.node, "the lines after this one are dropped")
                continue
            emitted: list[Val] = []
            for v in list(r.texts.values()) + list(r.lists.values()):
                if v is None:
                    bad("line", "rewritten", L.node, "what was already written is altered while the next lines are added")
                    continue
                emitted += flat(v)
            calls = rec_calls(r.events)
            names = {e[4].key for e in calls}
            plain = [v for v in emitted if v.key == line]
            recs = [v for v in emitted if v.key in names]
            other = [v for v in emitted if line in v.key and v.key != line and v.key not in names]
            empty = any((not b and q in names) or (b and any(q == f"eq('',{z})" for z in names)) or (not b and q in {f"len({z})" for z in names}) for q, b in r.facts.items())
            for e in calls:
                if not any(line in v.key for v in e[2]):
                    bad("recurse", "not the line", e[3], "the recursion is not about the file named by the line")
            if len(calls) > 1:
                bad("recurse", "twice", calls[1][3], "a line is inlined twice")
            if other:
                bad("line", "altered", L.node, f"a line is altered before it is kept: {other[0].key.replace(line, '<line>')[:80]}")
                continue
            if len(plain) + len(recs) > 1:
                bad("line", "repeated", L.node, "a line is written twice, or both kept and replaced")
            elif calls and plain:
                bad("line", "both", L.node, "a line which includes a local header is kept although the header is inlined")
            elif calls and not recs and not empty:
                bad("line", "lost", L.node, "the text of an included header is dropped")
            elif not calls and not plain:
                dedupe = [q for q, b in r.facts.items() if b and (m := re.fullmatch(r"in\((.*),(\w+)\)", q)) and m.group(2) in ext and line in m.group(1)]
                pragma = any(b and "#pragma once" in q and line in q for q, b in r.facts.items())
                if dedupe:
                    rep.count("deduplicated")
                    bad("dedupe", "conditional", L.node, "a system include is dropped because the same one was written before, even if that one is inside a conditional block (#ifdef): the include may be lost")
                elif not pragma:
                    bad("line", "dropped", L.node, "a line is dropped")
            elif not calls and plain:
                if any(b and re.search(r"startswith\(\+'#include \"',options", q) for q, b in r.facts.items()):
                    bad("line", "not inlined", L.node, "a line which includes a local header is kept instead of being replaced by the header")
            # who was written is remembered
            for q, b in r.facts.items():
                m = re.fullmatch(r"in\((.*),(\w+)\)", q)
                if m and not b and m.group(2) in ext and not any(receiver(e) == m.group(2) and any(v.key == m.group(1) for v in e[2]) for e in r.events):
                    bad("dedupe", "not remembered", L.node, "a system include which is written is not remembered under the name which is looked for")
    for g in group:
        for n in p.own_nodes(g):
            if isinstance(n, ast.Call) and group & set(p.callees(g.module, n)[0]):
                for z in list(n.args) + [y.value for y in n.keywords]:
                    if isinstance(z, (ast.Call, ast.Subscript, ast.BinOp, ast.ListComp, ast.List, ast.Starred)) and any(isinstance(y, ast.Name) and y.id in ext | seen_lists for y in ast.walk(z)):
                        bad("recurse", "copy of the list", n, f"a copy of the list of what was written is handed down ({ast.unparse(z)}): what the recursion adds to it is forgotten")
    for a in ext | seen_lists:
        if a not in handed:
            bad("recurse", f"{a} not handed down", f.node, f"{a} is not handed down the recursion")
    # first calls
    for g in p.all_funcs():
        if not library(g) or g in group:
            continue
        for n in p.own_nodes(g):
            if isinstance(n, ast.Call) and f in p.callees(g.module, n)[0]:
                rep.count("first_calls")
                for a in seen_lists | ext:
                    i = params.index(a)
                    arg = next((z.value for z in n.keywords if z.arg == a), n.args[i] if i < len(n.args) else None)
                    if isinstance(arg, ast.Name):
                        defs = [z.value for z in p.own_nodes(g) if isinstance(z, (ast.Assign, ast.AnnAssign)) and any(isinstance(q, ast.Name) and q.id == arg.id for q in (z.targets if isinstance(z, ast.Assign) else [z.target]))]
                        arg = defs[0] if len(defs) == 1 and defs[0] is not None else arg
                    new = isinstance(arg, (ast.List, ast.Set)) and not arg.elts or isinstance(arg, ast.Call) and isinstance(arg.func, ast.Name) and arg.func.id in ("list", "set") and not arg.args
                    if not new:
                        rep.add("recurse", f"{g.qual}: {a}", g.loc(n), f"an amalgamation does not start with a new {a}: the headers of another one would be missing")
    rep.count("inliners")
    rep.sample(f"{f.qual}: visited {sorted(seen_lists)}, dedupe {sorted(ext)}, {len(exits)} paths, {sum(len(L.recs) for L in loops)} paths per line")
    if not ok_exits:
        bad("result", "never", f.node, "no path returns the text of the header")
    return True


def run(p: Project, tier: str) -> Report:
    rep = Report("C23", "the amalgamation inlines each local header exactly once and keeps every line")
    for f in p.all_funcs():
        if not library(f) or f.cls is not None or not f.module.name.startswith("codemanip"):
            continue
        group = recursive(p, f)
        if group is None:
            continue
        outside = [g for g in p.all_funcs() if g not in group and library(g) and any(isinstance(n, ast.Call) and f in p.callees(g.module, n)[0] for n in p.own_nodes(g))]
        if not outside:
            continue
        rep.count("recursive_functions")
        judge(p, rep, f, group)
    rep.need("inliners", 1)
    rep.need("first_calls", 1)
    return rep
