"""C24: scratch files, handles and helper processes never outlive the call; no shell.

(leak)   every file, temporary file or directory, and process acquired by a function is released on each of its ways out
         (normal, early return, exception), or handed over to the caller / stored in an object that owns it: path-sensitive
         typestate with exceptional exits; functions that hand a resource over are acquisitions for their callers
(inline) a resource is never used without being bound to something that can release it: open(x).read()
(shell)  no text is interpreted by a shell"""
from __future__ import annotations

import ast
import re
from typing import Iterable, Optional

TECHNIQUE = "resource typestate (acquired / released / handed over) over all paths including exceptional ones, interprocedural through functions that return a resource; effect query for shell interpretation"
LEVEL_NOTE = ("Acquisitions are those of the standard library (files, temporary files and directories, processes, sockets, pools). A statement containing a call may raise; pure path manipulations are taken not to. "
              "A release guarded by a parameter or option which says to keep the files counts as a release.")

from vlib.report import Report
from vlib.project import Func, Module, Project, dotted
from vlib.sx import Domain, Exec

ACQ = {
    "open": "file", "io.open": "file", "os.open": "file", "os.fdopen": "file", "codecs.open": "file", "gzip.open": "file",
    "tempfile.NamedTemporaryFile": "temporary file", "tempfile.TemporaryFile": "temporary file", "tempfile.SpooledTemporaryFile": "temporary file",
    "tempfile.mkstemp": "temporary file", "tempfile.mkdtemp": "temporary directory", "tempfile.TemporaryDirectory": "temporary directory",
    "subprocess.Popen": "process", "os.popen": "process", "urllib.request.urlopen": "connection",
    "multiprocessing.Pool": "pool", "concurrent.futures.ProcessPoolExecutor": "pool", "concurrent.futures.ThreadPoolExecutor": "pool",
}
RELEASE_METHODS = {"close", "cleanup", "wait", "communicate", "kill", "terminate", "unlink", "rmdir", "shutdown", "__exit__"}
RELEASE_FUNCS = {"os.close", "os.remove", "os.unlink", "os.rmdir", "shutil.rmtree", "pathlib.Path.unlink"}
PURE = {"os.path.join", "os.path.basename", "os.path.dirname", "os.path.abspath", "len", "str", "isinstance", "os.path.exists", "os.path.isfile", "os.path.isdir", "hasattr", "repr"}
KEEP = re.compile(r"keep|remove|preserve|delete|clean|debug", re.I)


class Res(Domain):
    """state: frozenset of (variable, kind, line)"""

    def __init__(self, r: "Rule", f: Func):
        self.r, self.f = r, f
        self.inline: list[tuple[ast.Call, str]] = []
        self.given: set[str] = set()  # handed over to the caller by a return

    # -------------------------------------------------------------
    def release(self, node: ast.AST, state):
        out = set(state)
        for n in ast.walk(node):
            if not isinstance(n, ast.Call):
                continue
            d = dotted(n.func)
            if isinstance(n.func, ast.Attribute) and n.func.attr in RELEASE_METHODS:
                base = n.func.value
                names = self._names(base)
                for it in list(out):
                    if it[0] in names:
                        # closing a NamedTemporaryFile(delete=False) does not remove it
                        if it[1] == "kept temporary file" and n.func.attr not in ("unlink",):
                            continue
                        out.discard(it)
            full = self.r.p.full_name(self.f.module, n.func) or d
            if full in RELEASE_FUNCS or d in RELEASE_FUNCS or d.split(".")[-1] in ("rmtree", "unlink"):
                for a in n.args[:1]:
                    names = self._names(a)
                    for it in list(out):
                        if it[0] in names:
                            out.discard(it)
            # handed to an owner: stack.enter_context(v), stack.callback(os.remove, v), atexit.register
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("enter_context", "callback", "push", "append", "add", "register", "addfinalizer"):
                for a in n.args:
                    names = self._names(a)
                    for it in list(out):
                        if it[0] in names:
                            out.discard(it)
            # a local helper or a project function that releases its parameter
            fs, _ = self.r.p.callees(self.f.module, n)
            for g in fs:
                rel = self.r.releases(g)
                params = g.params[1:] if g.cls is not None and not g.is_static else g.params
                for prm, a in zip(params, n.args):
                    if prm in rel:
                        for it in list(out):
                            if it[0] in self._names(a):
                                out.discard(it)
        return frozenset(out)

    def _names(self, e: ast.AST) -> set[str]:
        return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}

    def acquire(self, node: ast.AST, state):
        out = set(state)
        val = getattr(node, "value", None)
        if isinstance(node, (ast.Assign, ast.AnnAssign)) and isinstance(val, ast.Call):
            k = self.r.kind(self.f, val)
            if k:
                self.r.seen += 1
                for t in node.targets if isinstance(node, ast.Assign) else [node.target]:
                    if isinstance(t, ast.Name):
                        out.add((t.id, k, val.lineno))
                    elif isinstance(t, ast.Tuple):
                        for e in t.elts:
                            if isinstance(e, ast.Name) and e.id != "_":
                                out.add((e.id, k, val.lineno))
                    # an attribute: the object owns it
                val = None
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and n is not getattr(node, "value", None):
                k = self.r.kind(self.f, n)
                if k and not self.r.handed(self.f, n, node):
                    self.inline.append((n, k))
            elif isinstance(n, ast.Call) and isinstance(node, ast.Expr):
                k = self.r.kind(self.f, n)
                if k:
                    self.inline.append((n, k))
        return frozenset(out)

    def stmt(self, node: ast.stmt, state) -> Iterable:
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return [state]
        s = self.release(node, state)
        # aliases and transfers
        if isinstance(node, ast.Return) and node.value is not None:
            names = self._closure(self._names(node.value))
            self.given |= {it[0] for it in s if it[0] in names}
            s = frozenset(it for it in s if it[0] not in names)
        if isinstance(node, ast.Expr) and isinstance(node.value, (ast.Yield, ast.YieldFrom)) and node.value.value is not None:
            pass
        if isinstance(node, ast.Assign):
            for t in node.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    names = self._names(node.value)
                    s = frozenset(it for it in s if it[0] not in names)
        return [self.acquire(node, s)]

    def _closure(self, names: set[str]) -> set[str]:
        """variables from which these were computed"""
        out = set(names)
        for _ in range(4):
            for n in self.r.p.own_nodes(self.f):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in out for t in n.targets):
                    out |= self._names(n.value)
        return out

    def expr(self, node, state):
        s = self.release(node, state)
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and self.r.kind(self.f, n) and not self.r.handed(self.f, n, node):
                self.inline.append((n, self.r.kind(self.f, n)))
        return [s]

    def atom(self, test, state, truth):
        st = self.expr(test, state)[0]
        # `if v is None` / `if v`: on the branch where nothing was acquired, nothing is held
        if isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq)) == truth
            if isnone and any(it[0] == test.left.id for it in st):
                return []
        if isinstance(test, ast.Name) and not truth and any(it[0] == test.id for it in st):
            return []
        if KEEP.search(ast.unparse(test)):
            return [frozenset() if self._branch_releases(test) else st]
        return [st]

    def _branch_releases(self, test: ast.expr) -> bool:
        par = self.r.p.parent_of.get(test)
        while par is not None and not isinstance(par, ast.stmt):
            par = self.r.p.parent_of.get(par)
        if not isinstance(par, ast.If):
            return False
        for s in par.body + par.orelse:
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and (dotted(n.func) in RELEASE_FUNCS or isinstance(n.func, ast.Attribute) and n.func.attr in RELEASE_METHODS):
                    return True
        return False

    def bind_with(self, item: ast.withitem, state):
        s = self.release(item.context_expr, state)
        e = item.context_expr
        if isinstance(e, ast.Name):
            s = frozenset(it for it in s if it[0] != e.id or it[1] == "kept temporary file")
        if isinstance(e, ast.Call):
            names = self._names(e)
            if dotted(e.func).split(".")[-1] in ("closing", "ExitStack"):
                s = frozenset(it for it in s if it[0] not in names)
            k = self.r.kind(self.f, e)
            if k:
                self.r.seen += 1
            if k == "kept temporary file" and isinstance(item.optional_vars, ast.Name):
                s = s | {(item.optional_vars.id, k, e.lineno)}
            if k in ("temporary directory",) and dotted(e.func).split(".")[-1] == "mkdtemp":
                self.inline.append((e, k))
        return [s]

    def catches_all(self, handlers) -> bool:
        return any(h.type is None or dotted(h.type) in ("BaseException", "Exception") for h in handlers)

    def may_raise(self, node: ast.AST) -> bool:
        for n in ast.walk(node):
            if isinstance(n, (ast.Raise, ast.Assert)):
                return True
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if d in PURE or d.split(".")[0] in ("logging", "warnings") or d == "print" or d.split(".")[-1] in RELEASE_METHODS or d in RELEASE_FUNCS:
                    continue
                fs, _ = self.r.p.callees(self.f.module, n)
                if fs and all(self.r.releases(g) for g in fs):
                    continue
                return True
        return False


class Rule:
    def __init__(self, p: Project):
        self.p = p
        self.seen = 0
        self.acquirers: dict[Func, str] = {}
        self._rel: dict[Func, set[str]] = {}
        for _ in range(3):
            n = len(self.acquirers)
            for f in p.all_funcs():
                if isinstance(f.node, ast.Lambda) or f in self.acquirers:
                    continue
                if any(d.endswith("contextmanager") for d in f.decorators):
                    continue
                for x in p.own_nodes(f):
                    if isinstance(x, ast.Return) and x.value is not None:
                        v = x.value
                        k = None
                        if isinstance(v, ast.Call):
                            k = self.kind(f, v)
                        elif isinstance(v, ast.Name):
                            for y in p.own_nodes(f):
                                if isinstance(y, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.id for t in y.targets) and isinstance(y.value, ast.Call):
                                    k = k or self.kind(f, y.value)
                        if k:
                            self.acquirers[f] = k
            if len(self.acquirers) == n:
                break

    def kind(self, f: Func, n: ast.Call) -> Optional[str]:
        full = self.p.full_name(f.module, n.func) or dotted(n.func)
        d = dotted(n.func)
        k = ACQ.get(full) or ACQ.get(d)
        if k is None and isinstance(n.func, ast.Attribute) and n.func.attr == "open" and "Path" in str(self.p.mtype(f.module, n.func.value)):
            k = "file"
        if k is not None:
            if k == "temporary file":
                for kw in n.keywords:
                    if kw.arg == "delete" and isinstance(kw.value, ast.Constant) and kw.value.value is False:
                        return "kept temporary file"
                if full.endswith("mkstemp"):
                    return "kept temporary file"
            return k
        fs, _ = self.p.callees(f.module, n)
        for g in fs:
            if g in self.acquirers:
                return self.acquirers[g]
        return None

    def handed(self, f: Func, n: ast.Call, stmt: ast.AST) -> bool:
        """returned, stored in an object, or entered by a context manager"""
        par = self.p.parent_of.get(n)
        if isinstance(par, ast.Return) or isinstance(par, ast.withitem):
            return True
        if isinstance(par, (ast.Assign, ast.AnnAssign)):
            return True
        if isinstance(par, ast.Call) and isinstance(par.func, ast.Attribute) and par.func.attr in ("enter_context", "push"):
            return True
        if isinstance(par, ast.Call) and dotted(par.func).split(".")[-1] in ("closing",):
            return True
        if isinstance(par, ast.Call) and self.p.constructed_class(f.module, par):
            return True
        # the value of a conditional or an alternative which is itself assigned or returned
        if isinstance(par, (ast.IfExp, ast.BoolOp)):
            gp = self.p.parent_of.get(par)
            return isinstance(gp, (ast.Assign, ast.AnnAssign, ast.Return, ast.withitem))
        # subprocess.Popen(...).communicate() / .wait(); open(...).close()
        if isinstance(par, ast.Attribute) and par.attr in RELEASE_METHODS and isinstance(self.p.parent_of.get(par), ast.Call):
            return True
        return False

    def releases(self, g: Func) -> set[str]:
        r = self._rel.get(g)
        if r is None:
            r = set()
            self._rel[g] = r
            for n in self.p.own_nodes(g):
                if isinstance(n, ast.Call):
                    d = dotted(n.func)
                    if d in RELEASE_FUNCS and n.args:
                        r |= {x.id for x in ast.walk(n.args[0]) if isinstance(x, ast.Name)} & set(g.params)
                    elif isinstance(n.func, ast.Attribute) and n.func.attr in RELEASE_METHODS and isinstance(n.func.value, ast.Name) and n.func.value.id in g.params:
                        r.add(n.func.value.id)
        return r


def run(p: Project, tier: str) -> Report:
    rep = Report("C24", "every file, temporary file or directory and process is released on each way out of the function that acquires it (or handed over to an owner which is itself checked); "
                        "no text is interpreted by a shell")
    r = Rule(p)
    for f in p.all_funcs():
        if isinstance(f.node, ast.Lambda):
            for n in ast.walk(f.node.body):
                if isinstance(n, ast.Call) and r.kind(f, n):
                    pass
            continue
        rep.count("functions_analysed")
        if not any(isinstance(n, ast.Call) and r.kind(f, n) for n in p.own_nodes(f)):
            continue
        rep.count("functions_acquiring_a_resource")
        d = Res(r, f)
        o = Exec(d).run(f.body, [frozenset()])
        leaks: dict[tuple, str] = {}
        for st in o.fall:
            for it in st:
                leaks.setdefault(it, "when the function ends")
        for n, st in o.ret:
            for it in st:
                leaks.setdefault(it, f"when the function returns (line {n.lineno})")
        for n, st in o.exc:
            for it in st:
                # the directory is what the function delivers: its files are written by the function, their owner is the caller
                if it[1] == "temporary directory" and it[0] in d.given:
                    continue
                leaks.setdefault(it, f"when an exception leaves the function (raised by line {getattr(n, 'lineno', '?')})")
        for (v, k, line), how in leaks.items():
            rep.add("leak", f"{f.qual}: {k} {v}", f"{f.module.rel}:{line}", f"the {k} held by `{v}` is not released {how}")
        for n, k in d.inline:
            rep.add("inline", f"{f.qual}: {ast.unparse(n)[:60]}", f.loc(n), f"a {k} is acquired without anything that releases it")
        rep.sample(f"{f.loc()} {f.qual}")
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            f = p.enclosing_func(n)
            q = f.qual if f is not None else m.name
            d = p.full_name(m, n.func) or dotted(n.func)
            if d.startswith("subprocess.") or d in ("os.system", "os.popen", "os.execv", "os.execvp", "os.spawnv", "pty.spawn", "commands.getoutput", "asyncio.create_subprocess_shell"):
                rep.count("process_creations")
            sh = d in ("os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput", "commands.getoutput", "asyncio.create_subprocess_shell")
            for k in n.keywords:
                if k.arg == "shell" and not (isinstance(k.value, ast.Constant) and not k.value.value):
                    sh = True
            if d.startswith("subprocess.") and n.args:
                a = n.args[0]
                if isinstance(a, ast.Name) and f is not None:
                    vs = [x.value for x in p.own_nodes(f) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in x.targets)]
                    a = vs[0] if len(vs) == 1 else a
                if isinstance(a, (ast.List, ast.Tuple)) and len(a.elts) >= 2 and isinstance(a.elts[0], ast.Constant) and str(a.elts[0].value).split("/")[-1] in ("sh", "bash", "cmd", "cmd.exe", "zsh") \
                        and isinstance(a.elts[1], ast.Constant) and a.elts[1].value in ("-c", "/c"):
                    sh = True
            if sh:
                rep.add("shell", f"{q}: {d}", f"{m.rel}:{n.lineno}", f"`{ast.unparse(n)[:80]}` is interpreted by a shell")
    rep.count("acquisitions_followed", r.seen)
    rep.need("functions_analysed", 600)
    rep.need("functions_acquiring_a_resource", 8)
    rep.assumptions = ["the interpreter is not killed", "pure path manipulations do not raise"]
    return rep
