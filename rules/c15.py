"""C15: generated files: only the marked region changes, losslessly.

(region)   the function which rewrites a marked region is interpreted into a transducer over the lines of the file (vlib/trans.py), which is
           compared, state by state, with the specification: outside, every line is kept once and alone; at the opening marker the line then the
           code; inside, nothing; at the closing marker the line; a misplaced, missing or unclosed marker raises and nothing is written
(lossless) text files are opened with an explicit encoding, and a path which is read and written in one go is so with the same encoding, newline and errors
(changed)  a text file given by the caller is only rewritten where its content was compared, or where it did not exist
(outputs)  every way out without an exception of the functions which write the outputs has written each output which was asked for
(only)     nothing is written, removed or created but at a path given by the caller or in a temporary folder"""
from __future__ import annotations

import ast
import re
from typing import Any, Optional

from vlib.project import Func, Project
from vlib.report import Report
from vlib.trans import Exit, Explosion, Loop, Rec, Trans, Val, k

TECHNIQUE = "path-sensitive abstract interpretation of the region writer into a transducer compared with its specification automaton; must-write and provenance of paths on every path of the writers"
LEVEL_NOTE = "Failures of the file system in the middle of a write are not modelled; what the formatter (black) does to the stub is outside."

LIB = ("codemanip", "srcmlcpp", "litgen")
NOT_LIB = ("tests", "sandbox", "srcmlcpp_tools", "integration_tests", "autogenerate", "html_code_viewer", "playground")


def library(f: Func) -> bool:
    m = f.module.name
    return m.startswith(LIB) and not any(x in m for x in NOT_LIB) and not m.startswith("srcmlcpp_tools")


def small(p: Project, f: Func):
    def ok(g: Func) -> bool:
        return g.module is f.module and g is not f and sum(isinstance(n, ast.stmt) for n in ast.walk(g.node)) <= 14 and not any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(g.node))
    return ok


def open_mode(n: ast.Call) -> Optional[str]:
    if isinstance(n.func, ast.Name) and n.func.id == "open":
        m: Any = n.args[1] if len(n.args) > 1 else next((x.value for x in n.keywords if x.arg == "mode"), None)
        if m is None:
            return "r"
        return m.value if isinstance(m, ast.Constant) and isinstance(m.value, str) else "?"
    return None


def kwargs(n: ast.Call) -> dict[str, str]:
    return {x.arg: ast.unparse(x.value) for x in n.keywords if x.arg in ("encoding", "newline", "errors")}


def sink(p: Project, f: Func, n: ast.Call) -> Optional[ast.expr]:
    """the path which this call writes, creates or removes"""
    m = open_mode(n)
    if m is not None:
        return n.args[0] if n.args and any(c in m for c in "wax+") else None
    _, ext = p.callees(f.module, n)
    full = ext or p.full_name(f.module, n.func)
    if full in ("os.remove", "os.unlink", "os.rmdir", "os.mkdir", "os.makedirs", "shutil.rmtree", "os.removedirs", "os.truncate", "shutil.move", "os.rename", "os.replace"):
        return n.args[0] if n.args else None
    if full in ("shutil.copy", "shutil.copyfile", "shutil.copytree", "shutil.copy2"):
        return n.args[1] if len(n.args) > 1 else None
    if isinstance(n.func, ast.Attribute) and n.func.attr in ("write_text", "write_bytes", "unlink", "touch", "rmdir") and full.startswith("pathlib"):
        return n.func.value
    if isinstance(n.func, ast.Attribute) and n.func.attr == "write" and "ElementTree" in full and n.args:
        return n.args[0]
    return None


class Files:
    def __init__(self, p: Project):
        self.p = p
        self.cache: dict[Func, tuple[Optional[list[Exit]], Optional[Trans]]] = {}

    def run(self, f: Func) -> tuple[Optional[list[Exit]], Optional[Trans]]:
        if f not in self.cache:
            t = Trans(self.p, small(self.p, f), max_steps=40000)
            try:
                self.cache[f] = (t.run(f), t)
            except Explosion:
                self.cache[f] = (None, None)
        return self.cache[f]


# ------------------------------------------------------------------------------------------------ region


def line_loop(L: Loop) -> bool:
    s = L.source.key if L.source is not None else ""
    return re.search(r"\.split\('\\n'\)|\.splitlines\(|readlines\(", s) is not None and ("read" in s or "open(" in s) and "star[" not in s


def region(p: Project, rep: Report, fs: Files) -> list[Func]:
    out = []
    for f in p.all_funcs():
        if not library(f) or len(f.params) < 3 or f.cls is not None:
            continue
        if not any(isinstance(n, ast.Raise) for n in p.own_nodes(f)) or not any(isinstance(n, ast.Call) and writes(p, f, n) for n in p.own_nodes(f)):
            continue
        exits, t = fs.run(f)
        if exits is None or t is None:
            continue
        loops = [L for L in t.loops.values() if line_loop(L) and L.func is f]
        if len(loops) != 1 or not loops[0].recs:
            continue
        out.append(f)
        automaton(p, rep, f, loops[0], exits)
    return out


def writes(p: Project, f: Func, n: ast.Call, depth: int = 3) -> bool:
    if sink(p, f, n) is not None:
        return True
    return depth > 0 and any(any(isinstance(x, ast.Call) and writes(p, g, x, depth - 1) for x in p.own_nodes(g)) for g in p.callees(f.module, n)[0] if g is not f and library(g))


OUT0, IN, OUT1 = "before the region", "in the region", "after the region"


def automaton(p: Project, rep: Report, f: Func, L: Loop, exits: list[Exit]) -> None:
    line = L.elem.data[1].key if L.elem is not None and L.elem.kind == "tup" else (L.elem.key if L.elem is not None else "")
    terms: set[str] = set()
    for r in L.recs:
        for a in r.facts:
            m = re.fullmatch(r"in\((.*)," + re.escape(line) + r"\)", a)
            if m and "<i" not in m.group(1):
                terms.add(m.group(1))
    close = [t for t in terms if "/" in t]
    opens = [t for t in terms if "/" not in t]
    if len(close) != 1 or len(opens) != 1:
        rep.notes.append(f"{f.qual}: markers not recognised among {sorted(terms)}: the region is not judged")
        return
    ko, kc = f"in({opens[0]},{line})", f"in({close[0]},{line})"
    path = f.params[0]
    code_param = [a for a in f.params[1:] if "code" in a or "content" in a] or f.params[2:3]
    # which accumulators receive lines
    def emitted(r: Rec) -> list[tuple[str, Optional[tuple[Val, ...]]]]:
        return [(str(i), v) for i, v in r.lists.items()] + list(r.texts.items())
    def flat(v: Any) -> list[Val]:
        return [y for x in v for y in (flat(x.data) if x.kind == "cat" else [x])]

    accs = {a for r in L.recs for a, v in emitted(r) if v and any(x.key == line for x in flat(v))}
    if not accs:
        rep.add("region", f"{f.qual}: lines", f.loc(L.node), "no line of the file is kept")
        return

    def normal(v: Optional[tuple[Val, ...]]) -> Optional[list[str]]:
        if v is None:
            return None
        r = []
        for x in flat(v):
            if x.kind == "k" and isinstance(x.data, str) and x.data.strip("\n") == "":
                continue
            r.append("line" if x.key == line else "code" if any(re.search(rf"(?<![\w:]){re.escape(c)}\b", x.key) for c in code_param) else x.key)
        return r

    start = {n: v.key for n, v in L.recs[0].entry.items()}
    todo: list[tuple[str, tuple]] = [(OUT0, tuple(sorted(start.items())))]
    seen: set[tuple[str, tuple]] = set()

    def bad(what: str, msg: str) -> None:
        rep.add("region", f"{f.qual}: {what}", f.loc(L.node), msg)

    reported: set[str] = set()
    while todo:
        spec, ctl = todo.pop()
        if (spec, ctl) in seen:
            continue
        seen.add((spec, ctl))
        for r in L.recs:
            if tuple(sorted((n, v.key) for n, v in r.entry.items())) != ctl:
                continue
            fo, fc = r.facts.get(ko), r.facts.get(kc)
            for o in ([fo] if fo is not None else [True, False]):
                for c in ([fc] if fc is not None else [True, False]):
                    rep.count("transitions")
                    got = [normal(v) for a, v in emitted(r) if a in accs]
                    where = f"{'opening' if o else ''}{' and ' if o and c else ''}{'closing' if c else ''} marker" if o or c else "line without a marker"
                    key = f"{where}, {'inside' if spec == IN else 'outside'}"
                    want: Optional[list[str]]
                    nxt = spec
                    err = False
                    if spec != IN:
                        if not o and not c:
                            want = ["line"]
                        elif o and not c:
                            want, nxt = ["line", "code"], IN
                        elif c and not o:
                            want, err = ["line"], True
                        else:
                            want, nxt = None, OUT1
                    else:
                        if not o and not c:
                            want = []
                        elif c and not o:
                            want, nxt = ["line"], OUT1
                        else:
                            want, err, nxt = ["line"], True, IN
                            if r.outcome != "raise" and key not in reported:
                                reported.add(key)
                                bad(key, "a second opening marker inside the region does not raise: the text in between would be lost")
                    if r.outcome == "raise":
                        if not err and want is not None and key not in reported:
                            reported.add(key)
                            bad(key, f"an exception is raised on a well-formed file ({key})")
                        continue
                    if r.outcome in ("break", "return") and key not in reported:
                        reported.add(key)
                        bad(key, f"the lines after a {key} are dropped")
                        continue
                    for g in got:
                        if key in reported:
                            continue
                        if g is None:
                            reported.add(key)
                            bad(key, f"what was already written is replaced at a {key}")
                        elif want is None:
                            if "line" not in g:
                                reported.add(key)
                                bad(key, f"the line is lost at a {key}")
                        elif g != want:
                            reported.add(key)
                            bad(key, f"at a {key}, {g or 'nothing'} is written instead of {want or 'nothing'}")
                    todo.append((nxt, tuple(sorted((n, v.key) for n, v in r.exit.items()))))
    by_ctl: dict[tuple, set[str]] = {}
    for spec, ctl in seen:
        by_ctl.setdefault(ctl, set()).add(spec)
    for x in exits:
        if x.kind == "raise":
            continue
        names = {n for c in by_ctl for n, _ in c}
        env: dict[str, str] = {}
        for fr in x.st.frames.values():
            env.update({n: v.key for n, v in fr.items() if n in names})
        specs = set()
        for c, ss in by_ctl.items():
            if all(env.get(n) == v for n, v in c):
                specs |= ss
        rep.count("ways_out")
        if IN in specs:
            bad("not closed", f"the function returns although the region is not closed: the text after it is lost ({opens[0]} without {close[0]})")
            break
        if OUT0 in specs and not any(x.st.facts.get(a) is False and "isfile" in a for a in x.st.facts):
            bad("no region", "the function returns although no marker was found: success is reported but the code is not in the file")
            break
    rep.count("region_writers")
    rep.sample(f"{f.qual}: {len(seen)} states of the product with the specification, {len(L.recs)} paths per line")


# ------------------------------------------------------------------------------------------------ files


def lossless(p: Project, rep: Report) -> None:
    for f in p.all_funcs():
        if not library(f):
            continue
        for n in p.own_nodes(f):
            if not isinstance(n, ast.Call):
                continue
            m = open_mode(n)
            meth = isinstance(n.func, ast.Attribute) and n.func.attr in ("read_text", "write_text")
            full = p.callees(f.module, n)[1] if meth else ""
            if m is None and not (meth and full.startswith("pathlib")):
                continue
            rep.count("files_opened")
            if m is not None and "b" in m:
                continue
            enc = next((x.value for x in n.keywords if x.arg == "encoding"), n.args[3] if m is not None and len(n.args) > 3 else n.args[0] if meth and n.func.attr == "read_text" and n.args else None)  # type: ignore
            if enc is None or isinstance(enc, ast.Constant) and enc.value is None:
                rep.add("lossless", f"{f.qual}: encoding", f.loc(n), "a text file is opened with the encoding of the locale")
            for x in n.keywords:
                if x.arg == "errors" and isinstance(x.value, ast.Constant) and x.value.value in ("ignore", "replace"):
                    rep.add("lossless", f"{f.qual}: errors", f.loc(n), f"what cannot be decoded or encoded is dropped (errors={x.value.value!r})")
    # a path read and written by the same function (helpers included)
    for f in p.all_funcs():
        if not library(f):
            continue
        ops: dict[str, list[tuple[str, dict[str, str], Func, ast.Call]]] = {}

        def collect(g: Func, path: str, names: dict[str, str], depth: int) -> None:
            for n in p.own_nodes(g):
                if not isinstance(n, ast.Call):
                    continue
                m = open_mode(n)
                if m is not None and n.args and "b" not in m:
                    a = ast.unparse(n.args[0])
                    ops.setdefault(names.get(a, path + a if depth else a), []).append((m, kwargs(n), g, n))
                elif depth < 3:
                    for t in p.callees(g.module, n)[0]:
                        if t.cls is None and library(t) and t is not g:
                            nm = {q: names.get(ast.unparse(a), path + ast.unparse(a)) for q, a in zip(t.params, n.args) if not isinstance(a, ast.Starred)}
                            collect(t, f"{path}{t.name}.", nm, depth + 1)
        collect(f, "", {}, 0)
        for path, os_ in ops.items():
            rd = [o for o in os_ if "r" in o[0]]
            wr = [o for o in os_ if any(c in o[0] for c in "wa")]
            for a in rd:
                for b in wr:
                    rep.count("read_write_pairs")
                    for kname in ("encoding", "newline", "errors"):
                        if a[1].get(kname) != b[1].get(kname):
                            rep.add("lossless", f"{b[2].qual} / {a[2].qual}: {kname}", b[2].loc(b[3]), f"{path} is read with {kname}={a[1].get(kname)} and written with {kname}={b[1].get(kname)}")


def changed(p: Project, rep: Report, fs: Files) -> None:
    for f in p.all_funcs():
        if not library(f):
            continue
        for n in p.own_nodes(f):
            if not isinstance(n, ast.Call):
                continue
            m = open_mode(n)
            if m is None or "b" in m or not any(c in m for c in "wax") or not n.args or not isinstance(n.args[0], ast.Name) or n.args[0].id not in f.params:
                continue
            rep.count("writers_of_the_files_of_the_caller")
            if any(c in m for c in "ax"):
                rep.add("changed", f"{f.qual}: mode", f.loc(n), f"a file is opened with mode {m!r}: what was there stays")
            exits, t = fs.run(f)
            if exits is None:
                continue
            path = n.args[0].id
            for x in exits:
                evs = [e for e in x.st.events if e[0] == "call" and e[3] is n]
                if not evs:
                    continue
                rep.count("ways_to_write")
                ok = False
                for a, b in x.st.facts.items():
                    if not b and re.search(rf"(isfile|exists)\({path}\)", a):
                        ok = True
                    if not b and a.startswith("eq(") and re.search(rf"(read\w*|open)\({path}\b", a):
                        ok = True
                if not ok:
                    rep.add("changed", f"{f.qual}: always", f.loc(n), f"{path} is rewritten even when its content does not change ({'; '.join(x.st.facts) or 'no test'})")


def outputs(p: Project, rep: Report, fs: Files, writers: list[Func]) -> None:
    """carriers: function -> its parameters which are paths of outputs"""
    car: dict[Func, set[str]] = {f: {f.params[0]} for f in writers}
    for _ in range(6):
        grew = False
        for f in p.all_funcs():
            if not library(f) or f in writers:
                continue
            for n in p.own_nodes(f):
                if not isinstance(n, ast.Call):
                    continue
                for t in p.callees(f.module, n)[0]:
                    if t in car:
                        ps = t.params[1:] if t.cls is not None and not t.is_static and isinstance(n.func, ast.Attribute) else t.params
                        for q, a in list(zip(ps, n.args)) + [(x.arg, x.value) for x in n.keywords]:
                            if q in car[t] and isinstance(a, ast.Name) and a.id in f.params and a.id not in car.setdefault(f, set()):
                                car[f].add(a.id)
                                grew = True
        if not grew:
            break
    for f in p.all_funcs():
        if not library(f) or f in writers:
            continue
        asked = {a for a in f.params if a.startswith("output") and "file" in a}
        asked |= car.get(f, set())
        if not asked or (f not in car and not f.name.startswith("write")):
            continue
        exits, t = fs.run(f)
        if exits is None or t is None:
            rep.notes.append(f"{f.qual}: not analysed")
            continue
        for a in sorted(asked):
            rep.count("outputs_asked_for")
            for x in exits:
                if x.kind != "return":
                    continue
                if any(re.fullmatch(rf"(eq\('',{a}\)|eq\(None,{a}\))", q) and b or q == a and not b for q, b in x.st.facts.items()):
                    continue
                done = False
                for e in x.st.events:
                    if e[0] in ("call", "loop:call"):
                        g = p.enclosing_func(e[3]) or f
                        ts, _ = p.callees(g.module, e[3])
                        if any(t2 in car for t2 in ts) and any(v.key == a for v in e[2]):
                            done = True
                if not done:
                    rep.add("outputs", f"{f.qual}: {a}", f.loc(x.node if x.node is not None else f.node), f"{f.name} may return without having written {a}")
                    break


def only(p: Project, rep: Report, fs: Files) -> None:
    for f in p.all_funcs():
        if not library(f):
            continue
        sinks = [(n, sink(p, f, n)) for n in p.own_nodes(f) if isinstance(n, ast.Call)]
        sinks = [(n, s) for n, s in sinks if s is not None]
        for n, path in sinks:
            rep.count("writes")
            outer: list[Func] = [f]
            while True:
                up = p.enclosing_func(outer[-1].node)
                if up is None:
                    break
                outer.append(up)
            names = {a for g in outer for a in g.params}
            defs: dict[str, list[ast.expr]] = {}
            for g in outer:
                for x in p.own_nodes(g):
                    if isinstance(x, ast.Assign):
                        for tt in x.targets:
                            if isinstance(tt, ast.Name):
                                defs.setdefault(tt.id, []).append(x.value)
                    elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None:
                        defs.setdefault(x.target.id, []).append(x.value)
                    elif isinstance(x, (ast.With,)):
                        for it in x.items:
                            if isinstance(it.optional_vars, ast.Name):
                                defs.setdefault(it.optional_vars.id, []).append(it.context_expr)
                    elif isinstance(x, ast.For) and isinstance(x.target, ast.Name):
                        defs.setdefault(x.target.id, []).append(x.iter)

            def given(e: ast.expr, seen: frozenset) -> bool:
                """the beginning of the path comes from the caller or from a temporary folder"""
                if isinstance(e, ast.Name):
                    if e.id in seen:
                        return True
                    if e.id in defs:
                        return all(given(d, seen | {e.id}) for d in defs[e.id])
                    return e.id in names
                if isinstance(e, ast.Attribute):
                    return given(e.value, seen)
                if isinstance(e, ast.BinOp):
                    return given(e.left, seen)
                if isinstance(e, ast.JoinedStr):
                    return bool(e.values) and isinstance(e.values[0], ast.FormattedValue) and given(e.values[0].value, seen)
                if isinstance(e, ast.Subscript):
                    return given(e.value, seen)
                if isinstance(e, ast.IfExp):
                    return given(e.body, seen) and given(e.orelse, seen)
                if isinstance(e, ast.Call):
                    ts, ext = p.callees(f.module, e)
                    full = (ext or p.full_name(f.module, e.func)).replace("posixpath.", "os.path.")
                    if full.startswith("tempfile."):
                        return True
                    if full in ("os.path.join", "os.path.abspath", "os.path.realpath", "str", "os.path.normpath", "pathlib.Path", "os.path.dirname", "os.fspath", "os.path.expanduser", "builtins.str"):
                        return bool(e.args) and given(e.args[0], seen)
                    if isinstance(e.func, ast.Attribute) and not ts:
                        return given(e.func.value, seen)
                    if ts:
                        for t2 in ts:
                            rets = [x.value for x in p.own_nodes(t2) if isinstance(x, ast.Return) and x.value is not None]
                            own = {q for q in t2.params}
                            for rv in rets:
                                fulls = [p.callees(t2.module, c)[1] or p.full_name(t2.module, c.func) for c in ast.walk(rv) if isinstance(c, ast.Call)]
                                first = next((x for x in ast.walk(rv) if isinstance(x, ast.Name)), None)
                                if not (any(z.startswith("tempfile.") for z in fulls) or first is not None and first.id in own):
                                    if not any(isinstance(c, ast.Call) and (p.callees(t2.module, c)[1] or "").startswith("tempfile.") for c in p.own_nodes(t2)):
                                        return False
                        return True
                    return False
                return False
            if not given(path, frozenset()):
                rep.add("only", f"{f.qual}: {ast.unparse(path)[:40]}", f.loc(n), f"{ast.unparse(path)[:60]} is written, created or removed although it is neither given by the caller nor temporary")


def run(p: Project, tier: str) -> Report:
    rep = Report("C15", "only the marked region of the given files changes, losslessly, and success means that every output was written")
    fs = Files(p)
    writers = region(p, rep, fs)
    lossless(p, rep)
    changed(p, rep, fs)
    outputs(p, rep, fs, writers)
    only(p, rep, fs)
    rep.need("files_opened", 5)
    rep.need("writes", 4)
    return rep
