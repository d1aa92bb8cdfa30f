"""C22: layering and side-effect free imports.

(layer)   no import statement of a lower layer (at any depth, under any condition but TYPE_CHECKING) nor dynamic import names a
          module of a higher layer, directly or through the modules it imports
(effect)  nothing executed while importing (module statements, class bodies, decorators, default values, and whatever project code
          they call) touches files, processes, the current directory or the standard streams
(order)   each module can be imported first: a simulation of the import machinery over the import statements never reads a name of
          a module which is still being initialised"""
from __future__ import annotations

import ast
from typing import Iterator, Optional

from vlib.report import Report
from vlib.project import Func, Module, Project, dotted
from vlib.guards import Guards

TECHNIQUE = "import-graph reachability over resolved import statements, effect analysis of import-time code over the call graph, simulation of the import order from each module"
LEVEL_NOTE = "External modules are judged by name (os, io, subprocess, shutil, sys streams, logging configuration...); their own import-time effects are not analysed. Environment variables are not files, processes or streams."

RANK = {"codemanip": 0, "srcmlcpp": 1, "srcmlcpp_tools": 2, "litgen": 2}

FILE = {"open", "io.open", "os.open", "os.mkdir", "os.makedirs", "os.remove", "os.unlink", "os.rename", "os.replace", "os.rmdir", "os.removedirs", "os.chmod",
        "os.symlink", "os.link", "os.utime", "os.chdir", "os.truncate", "os.fdopen", "os.write", "os.listdir", "os.walk", "os.scandir"}
FILE_PREFIX = ("shutil.", "tempfile.", "glob.", "urllib.request.", "socket.", "sqlite3.", "pathlib.Path.")
PATH_METHODS = {"write_text", "write_bytes", "read_text", "read_bytes", "mkdir", "unlink", "touch", "rmdir", "rename", "symlink_to"}
PROC = {"os.system", "os.popen", "os.fork", "os.kill", "os._exit", "sys.exit", "exit", "quit", "os.abort", "signal.signal", "atexit.register", "os.execv", "os.execvp", "os.spawnv"}
PROC_PREFIX = ("subprocess.", "multiprocessing.", "threading.Thread", "concurrent.futures.", "asyncio.")
STREAM = {"print", "input", "logging.basicConfig", "warnings.warn", "sys.stdout.write", "sys.stderr.write", "sys.stdout.flush", "sys.stderr.flush", "traceback.print_exc", "traceback.print_stack",
          "logging.info", "logging.warning", "logging.error", "logging.critical", "logging.exception", "logging.debug", "logging.log", "breakpoint", "pprint.pprint"}
STREAM_ATTRS = {"sys.stdout", "sys.stderr", "sys.stdin"}
HARMLESS_PREFIX = ("subprocess.PIPE", "subprocess.DEVNULL", "multiprocessing.cpu_count", "tempfile.gettempdir")


def type_checking(test: ast.expr) -> bool:
    return dotted(test).split(".")[-1] == "TYPE_CHECKING"


def is_main(test: ast.expr) -> bool:
    return isinstance(test, ast.Compare) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(test)) and any(
        isinstance(x, ast.Constant) and x.value == "__main__" for x in ast.walk(test))


def import_time(body: list[ast.stmt]) -> Iterator[ast.AST]:
    """the statements and expressions evaluated when this body is executed at import (function bodies excluded)"""
    for st in body:
        yield from _it(st)


def _it(n: ast.AST) -> Iterator[ast.AST]:
    yield n
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        for x in n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
            yield from _it(x)
        return
    if isinstance(n, ast.Lambda):
        for x in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
            yield from _it(x)
        return
    if isinstance(n, ast.If):
        if type_checking(n.test) or is_main(n.test):
            for s in n.orelse:
                yield from _it(s)
            return
    if isinstance(n, ast.AnnAssign):  # annotations are not evaluated (from __future__ import annotations) or harmless
        yield from _it(n.target)
        if n.value is not None:
            yield from _it(n.value)
        return
    for c in ast.iter_child_nodes(n):
        yield from _it(c)


class Rule:
    def __init__(self, p: Project, rep: Report):
        self.p, self.rep = p, rep
        self.g = Guards(p)
        self._eff: dict[Func, Optional[tuple[str, str]]] = {}

    # ------------------------------------------------------------- layers
    def modules_named(self, m: Module, n: ast.AST) -> list[str]:
        if isinstance(n, ast.Import):
            return [a.name for a in n.names]
        if isinstance(n, ast.ImportFrom):
            b = self.p.import_base(m, n)
            return [b] + [f"{b}.{a.name}" for a in n.names]
        if isinstance(n, ast.Subscript) and (self.p.full_name(m, n.value) or dotted(n.value)) == "sys.modules":
            t = _text(n.slice)
            return [t] if t else []
        if isinstance(n, ast.Call):
            d = self.p.full_name(m, n.func) or dotted(n.func)
            if d in ("sys.modules.get", "sys.modules.__getitem__") and n.args:
                t = _text(n.args[0])
                return [t] if t else []
            if d in ("__import__", "importlib.import_module", "importlib.util.find_spec", "importlib.__import__", "runpy.run_module", "pkgutil.resolve_name", "importlib.reload", "pydoc.locate") and n.args:
                t = _text(n.args[0])
                return [t] if t else []
            if d in ("exec", "eval") and n.args:
                t = _text(n.args[0])
                out = []
                if t:
                    try:
                        for x in ast.walk(ast.parse(t)):
                            if isinstance(x, (ast.Import, ast.ImportFrom)):
                                out += [a.name for a in x.names] if isinstance(x, ast.Import) else [x.module or ""]
                    except SyntaxError:
                        pass
                return out
        return []

    def layers(self) -> None:
        for m in self.p.modules.values():
            mine = RANK.get(m.name.split(".")[0])
            if mine is None:
                continue
            skip: set[ast.AST] = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.If) and type_checking(n.test):
                    for s in n.body:
                        skip.update(ast.walk(s))
            for n in ast.walk(m.tree):
                names = self.modules_named(m, n)
                if not names or n in skip:
                    continue
                self.rep.count("imports_checked")
                for t in names:
                    r = RANK.get(t.split(".")[0])
                    if r is None:
                        continue
                    if r > mine or (r == mine and t.split(".")[0] != m.name.split(".")[0]):
                        f = self.p.enclosing_func(n)
                        self.rep.add("layer", f"{f.qual if f else m.name} imports {t.split('.')[0]}", f"{m.rel}:{n.lineno}",
                                     f"{m.name} (layer {m.name.split('.')[0]}) imports {t}")
                        break

    # ------------------------------------------------------------- effects
    def external_effect(self, m: Module, n: ast.AST) -> Optional[str]:
        if isinstance(n, ast.Call):
            d = self.p.full_name(m, n.func) or dotted(n.func)
            if d.startswith("builtins."):
                d = d[9:]
            if d.startswith(HARMLESS_PREFIX):
                return None
            if d in FILE or d.startswith(FILE_PREFIX):
                return f"accesses files ({d})"
            if isinstance(n.func, ast.Attribute) and n.func.attr in PATH_METHODS and ("Path" in str(self.p.mtype(m, n.func.value)) or "Path" in ast.unparse(n.func.value)):
                return f"accesses files ({n.func.attr})"
            if d in PROC or d.startswith(PROC_PREFIX):
                return f"acts on processes ({d})"
            if d in STREAM:
                return f"writes to a standard stream ({d})"
            if isinstance(n.func, ast.Attribute) and dotted(n.func.value) in STREAM_ATTRS | {"sys.__stdout__", "sys.__stderr__"}:
                if n.func.attr not in ("isatty", "fileno"):
                    return f"acts on a standard stream ({d})"
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if dotted(t) in STREAM_ATTRS:
                    return f"replaces a standard stream ({dotted(t)})"
        return None

    def effect_of(self, f: Func, stack: tuple = ()) -> Optional[tuple[str, str]]:
        """(what, where) for the first effect reached by a call of f"""
        if f in self._eff:
            return self._eff[f]
        if f in stack or len(stack) > 25:
            return None
        r = None
        for n in (ast.walk(f.node.body) if isinstance(f.node, ast.Lambda) else self.p.own_nodes(f)):
            e = self.external_effect(f.module, n)
            if e:
                r = (e, f"{f.loc(n)}")
                break
            if isinstance(n, ast.Call):
                for c in self.targets(f.module, n):
                    x = self.effect_of(c, stack + (f,))
                    if x:
                        r = x
                        break
            if r:
                break
        self._eff[f] = r
        return r

    def targets(self, m: Module, n: ast.Call) -> list[Func]:
        fs, _ = self.p.callees(m, n)
        out = list(fs)
        c = self.p.constructed_class(m, n)
        if c:
            for meth in ("__init__", "__post_init__", "__new__"):
                t = self.p.find_method(c, meth)
                if t is not None and t not in out:
                    out.append(t)
        return out

    def effects(self) -> None:
        for m in self.p.modules.values():
            if m.name.endswith("__main__"):
                continue
            self.rep.count("modules_whose_import_was_analysed")
            for n in import_time(m.tree.body):
                e = self.external_effect(m, n)
                if e:
                    self.rep.add("effect", f"import of {m.name}: {e}", f"{m.rel}:{n.lineno}", f"importing {m.name} {e}")
                    continue
                calls: list[Func] = []
                if isinstance(n, ast.Call):
                    self.rep.count("import_time_calls")
                    calls = self.targets(m, n)
                    # a call-back given to a builtin is called right away
                    for a in n.args:
                        if isinstance(a, ast.Lambda) and a in self.p.func_of_node:
                            calls.append(self.p.func_of_node[a])
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    for d in n.decorator_list:
                        fs, _ = self.p.resolve_callable(m, d)
                        calls += fs
                    if isinstance(n, ast.ClassDef):
                        for b in n.bases:
                            for c in self.p.classes.values():
                                if c.name == dotted(b).split(".")[-1]:
                                    h = self.p.find_method(c.full, "__init_subclass__")
                                    calls += [h] if h else []
                for c in calls:
                    x = self.effect_of(c)
                    if x:
                        self.rep.add("effect", f"import of {m.name}: {c.name}", f"{m.rel}:{n.lineno}", f"importing {m.name} calls {c.qual}, which {x[0]} at {x[1]}")

    # ------------------------------------------------------------- import order
    def orders(self) -> None:
        for m in self.p.modules.values():
            if m.name.endswith("__main__"):
                continue
            self.rep.count("import_orders_simulated")
            Sim(self, m).run()


def _text(e: ast.expr) -> str:
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.JoinedStr):
        return "".join(v.value if isinstance(v, ast.Constant) else "?" for v in e.values)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return _text(e.left) + _text(e.right)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format":
        return _text(e.func.value)
    return ""


class Sim:
    """imports `entry` first in a fresh interpreter"""

    def __init__(self, r: Rule, entry: Module):
        self.r, self.p, self.entry = r, r.p, entry
        self.state: dict[str, str] = {}
        self.bound: dict[str, set[str]] = {}

    def run(self) -> None:
        self.load(self.entry.name)

    def load(self, name: str) -> None:
        parts = name.split(".")
        for i in range(1, len(parts) + 1):
            q = ".".join(parts[:i])
            m = self.p.modules.get(q)
            if m is None or q in self.state:
                continue
            self.state[q] = "running"
            self.bound[q] = {"__name__", "__file__", "__doc__", "__path__", "__all__"}
            self.block(m, m.tree.body)
            self.state[q] = "done"
            if i > 1:
                self.bound.setdefault(".".join(parts[:i - 1]), set()).add(parts[i - 1])

    def block(self, m: Module, body: list[ast.stmt]) -> None:
        for st in body:
            self.stmt(m, st)

    def fail(self, m: Module, st: ast.AST, what: str) -> None:
        self.r.rep.add("order", f"import of {self.entry.name}: {what}", f"{m.rel}:{st.lineno}", f"importing {self.entry.name} first fails: {what} while {what.split('.')[0]} is being initialised")

    def stmt(self, m: Module, st: ast.stmt) -> None:
        b = self.bound[m.name]
        if isinstance(st, ast.Import):
            for a in st.names:
                self.load(a.name)
                b.add(a.asname or a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            base = self.p.import_base(m, st)
            self.load(base)
            for a in st.names:
                if f"{base}.{a.name}" in self.p.modules:
                    if a.name not in self.bound.get(base, set()):
                        self.load(f"{base}.{a.name}")
                elif self.state.get(base) == "running" and a.name != "*" and a.name not in self.bound[base]:
                    self.fail(m, st, f"{base}.{a.name} does not exist yet")
                if a.name == "*":
                    b |= self.bound.get(base, set())
                else:
                    b.add(a.asname or a.name)
        elif isinstance(st, ast.If):
            if type_checking(st.test) or is_main(st.test):
                self.block(m, st.orelse)
            else:
                self.uses(m, st.test)
                self.block(m, st.body)
                self.block(m, st.orelse)
        elif isinstance(st, ast.Try):
            self.block(m, st.body + st.orelse + st.finalbody)
            for h in st.handlers:
                for x in h.body:
                    if isinstance(x, ast.Assign):
                        self.stmt(m, x)
        elif isinstance(st, (ast.With, ast.For, ast.While)):
            self.block(m, st.body)
        elif isinstance(st, ast.ClassDef):
            for x in st.bases + st.decorator_list:
                self.uses(m, x)
            for x in st.body:
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                    self.uses(m, x.value)
            b.add(st.name)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in st.decorator_list + st.args.defaults:
                self.uses(m, x)
            b.add(st.name)
        elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if st.value is not None:
                self.uses(m, st.value)
                for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            b.add(x.id)
        elif isinstance(st, ast.Expr):
            self.uses(m, st.value)

    def uses(self, m: Module, e: ast.AST) -> None:
        """module.attribute read right now"""
        imps = self.p.imports(m)
        for n in import_time_expr(e):
            if not isinstance(n, ast.Attribute):
                continue
            d = dotted(n)
            if not d:
                continue
            full = imps.get(d.split(".")[0])
            if full is None:
                continue
            full = full + d[len(d.split(".")[0]):]
            parts = full.split(".")
            for i in range(len(parts) - 1, 0, -1):
                q = ".".join(parts[:i])
                if q in self.p.modules:
                    if self.state.get(q) == "running" and q != m.name and parts[i] not in self.bound[q] and f"{q}.{parts[i]}" not in self.state:
                        self.fail(m, n, f"{q}.{parts[i]} does not exist yet")
                    break


def import_time_expr(e: ast.AST) -> Iterator[ast.AST]:
    yield from _it(e)


def run(p: Project, tier: str) -> Report:
    rep = Report("C22", "a lower layer never imports a higher one, whatever the place and form of the import; code executed by importing a module has no effect on files, processes or standard streams; "
                        "every module can be imported first")
    r = Rule(p, rep)
    r.layers()
    r.effects()
    r.orders()
    for m in list(p.modules.values())[:6]:
        rep.sample(m.name)
    rep.need("imports_checked", 300)
    rep.need("modules_whose_import_was_analysed", 90)
    rep.assumptions = ["importing modules of the standard library and of the declared dependencies has no such effect"]
    return rep
