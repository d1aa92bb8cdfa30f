"""C16: failures surface; the library keeps stdout and the process.

(swallowed)  on each path through an exception handler, the failure is raised again, reported (warning mechanism, logging
             at warning level or above, stderr), or turned into a failure value that every caller looks at; narrow
             exceptions of a local probe (int(), a lookup) may choose a value
(finally)    no return / break / continue in a finally block (it discards the exception in flight)
(exit)       the library never terminates the interpreter
(stdout)     nothing is written on stdout unless an option or parameter explicitly asks for it (command line tools aside)
(mechanism)  the warning mechanism emits the message on every path, except where an option of the caller silences it;
             functions documented to raise never return
(status)     the exit status of a helper process is examined"""
from __future__ import annotations

import ast
import re
from typing import Optional

TECHNIQUE = "handler path enumeration (typestate: failure pending / raised / reported) over the syntax tree with calls resolved; guard analysis for stdout writes"
LEVEL_NOTE = ("A handler is accepted when every path through it raises, reports, or yields a failure value that callers examine. What is reported is not compared with the failure. "
              "Command line entry points (cli, __main__) own their stdout and exit status.")

from vlib.report import Report
from vlib.project import Func, Module, Project, dotted
from vlib.guards import Guards
from vlib.sx import Domain, Exec

PROBES = {"ValueError", "KeyError", "IndexError", "AttributeError", "TypeError", "ImportError", "ModuleNotFoundError", "StopIteration", "LookupError", "UnicodeError"}
LOG = {"warning", "error", "exception", "critical", "warn", "fatal"}
ASKED = re.compile(r"verbose|debug|show_|_show|progress|enabled|trace|flag_dump|show_logs", re.I)


def is_cli(p: Project, m: Module, f: Optional[Func], node: ast.AST) -> bool:
    parts = m.name.split(".")
    if any(x in ("cli", "__main__", "demo") or x.endswith("_cli") for x in parts):
        return True
    cur: Optional[ast.AST] = node
    while cur is not None:
        if isinstance(cur, ast.If) and "__name__" in ast.unparse(cur.test):
            return True
        cur = p.parent_of.get(cur)
    return False


class Report_(Domain):
    """state: 'pending' | 'told'"""

    def __init__(self, r: "Rule", f: Func):
        self.r, self.f = r, f

    def stmt(self, node, state):
        return ["told"] if state == "told" or self.r.tells(self.f, node) else [state]

    def expr(self, node, state):
        return self.stmt(node, state)

    def atom(self, test, state, truth):
        if self.r.tells(self.f, test) or self.r.commanded(self.f, test, truth):
            return ["told"]
        return [state]

    def may_raise(self, node) -> bool:
        return False


class Rule:
    def __init__(self, p: Project):
        self.p = p
        self.g = Guards(p)
        self._tell: dict[Func, bool] = {}

    # ------------------------------------------------------------ reporting
    def direct_tell(self, f: Func, n: ast.Call) -> bool:
        d = dotted(n.func)
        last = d.split(".")[-1]
        if last in LOG and (d.startswith(("logging.", "logger.", "log.", "warnings.")) or "logger" in d.lower()):
            return True
        if d in ("warnings.warn", "traceback.print_exc"):
            return True
        if d == "print" and any(k.arg == "file" and "stderr" in ast.unparse(k.value) for k in n.keywords):
            return True
        if d == "sys.stderr.write":
            return True
        return False

    def tells(self, f: Func, node: ast.AST) -> bool:
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                if self.direct_tell(f, n):
                    return True
                fs, _ = self.p.callees(f.module, n)
                if fs and all(self.func_tells(h) for h in fs):
                    return True
                if not fs and isinstance(n.func, ast.Attribute) and re.match(r"emit_\w*warning$|raise_exception$", n.func.attr):
                    return True
        return False

    def func_tells(self, h: Func, depth: int = 0) -> bool:
        """the function reports (or raises) on each of its paths, options that silence it aside"""
        if h in self._tell:
            return self._tell[h]
        self._tell[h] = False
        if isinstance(h.node, ast.Lambda) or h.is_abstract:
            return False
        if not any(isinstance(n, ast.Call) for n in self.p.own_nodes(h)):
            self._tell[h] = self.g.never_returns(h)
            return self._tell[h]
        self._tell[h] = not self.silent_exits(h)
        return self._tell[h]

    def silent_exits(self, h: Func) -> list[ast.AST]:
        """ways out of h where nothing was reported, and which no option of the caller commands"""
        o = Exec(Report_(self, h)).run(h.body, ["pending"])
        bad: list[ast.AST] = []
        for n, s in o.ret:
            if s == "pending" and not self._in_ignored_loop(n):
                bad.append(n)
        if "pending" in o.fall:
            bad.append(h.node)
        return bad

    def commanded(self, f: Func, test: ast.expr, truth: bool) -> bool:
        """an option of the caller asks for silence"""
        if truth and SILENCE.search(ast.unparse(test)):
            return True
        if isinstance(test, ast.Call):
            fs, _ = self.p.callees(f.module, test)
            return bool(fs) and all(any(isinstance(x, ast.Attribute) and SILENCE.search(x.attr) for x in self.p.own_nodes(c)) for c in fs)
        return False

    def _in_ignored_loop(self, n: ast.AST) -> bool:
        cur: Optional[ast.AST] = n
        while cur is not None:
            if isinstance(cur, ast.For) and SILENCE.search(ast.unparse(cur.iter)):
                return True
            cur = self.p.parent_of.get(cur)
        return False


SILENCE = re.compile(r"quiet|ignored|ignore_|silent")


def never(p: Project, r: "Rule", f: Func, n: ast.Call) -> bool:
    fs, complete = p.callees(f.module, n)
    return bool(fs) and all(h is not f and not isinstance(h.node, ast.Lambda) and not h.is_abstract and (r.g.never_returns(h)) for h in fs)


class Raises(Domain):
    """the calls of functions which always raise leave no path"""

    def __init__(self, r: "Rule", f: Func):
        self.r, self.f = r, f

    def stmt(self, node, state):
        if isinstance(node, (ast.Expr, ast.Assign, ast.AnnAssign)) and isinstance(node.value, ast.Call) and never(self.r.p, self.r, self.f, node.value):
            return []
        return [state]


def handler_types(h: ast.ExceptHandler) -> list[str]:
    if h.type is None:
        return ["BaseException"]
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [ast.unparse(t).split(".")[-1] for t in ts]


def project_calls(p: Project, f: Optional[Func], m: Module, body: list[ast.stmt]) -> bool:
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                fs, _ = p.callees(m, n)
                if fs:
                    return True
    return False


def assigned(body: list[ast.stmt]) -> set[str]:
    out: set[str] = set()
    for s in body:
        if isinstance(s, ast.Assign):
            out |= {ast.unparse(t) for t in s.targets}
        elif isinstance(s, ast.AnnAssign):
            out.add(ast.unparse(s.target))
        else:
            out.add("?")
    return out


def failure_value(p: Project, f: Func, o) -> bool:
    """every way out of the handler returns None / False, and every caller uses the result"""
    if o.fall or o.brk or o.cont or not o.ret:
        return False
    for n, s in o.ret:
        v = n.value
        if not (v is None or isinstance(v, ast.Constant) and v.value in (None, False)):
            return False
    ret = getattr(f.node, "returns", None)
    if ret is None:
        return False
    r = ast.unparse(ret)
    if not ("None" in r or "Optional" in r or r == "bool") or r == "None":
        return False
    sites = p.call_sites().get(f.qual, [])
    for cf, mod, call in sites:
        if isinstance(p.parent_of.get(call), ast.Expr):
            return False
    return True


def run(p: Project, tier: str) -> Report:
    rep = Report("C16", "on every path, an exception handler raises, reports, or yields a failure value that callers examine; the library does not write on stdout "
                        "(unless asked to) nor terminate the interpreter; the exit status of helper processes is examined")
    r = Rule(p)
    # module-level code and functions
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            f = p.enclosing_func(n)
            q = f.qual if f is not None else m.name
            if isinstance(n, ast.Try):
                if is_cli(p, m, f, n):
                    continue
                for h in n.handlers:
                    rep.count("handlers")
                    check_handler(p, r, rep, m, f, n, h)
                for s in n.finalbody:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Return) or isinstance(x, (ast.Break, ast.Continue)) and not any(isinstance(y, (ast.For, ast.While)) and x in ast.walk(y) for y in ast.walk(s)):
                            rep.add("finally-discards", f"{q}: {ast.unparse(x)}", f"{m.rel}:{x.lineno}", "leaving a finally block discards the exception in flight")
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    if isinstance(it.context_expr, ast.Call) and dotted(it.context_expr.func).split(".")[-1] == "suppress":
                        ts = [ast.unparse(a).split(".")[-1] for a in it.context_expr.args]
                        if not set(ts) <= PROBES | {"FileNotFoundError"}:
                            rep.add("swallowed", f"{q}: {ast.unparse(it.context_expr)}", f"{m.rel}:{n.lineno}", f"failures of type {', '.join(ts)} are discarded")
            elif isinstance(n, ast.Call):
                check_call(p, r, rep, m, f, n, q)
            elif isinstance(n, ast.Raise) and n.exc is not None and ast.unparse(n.exc).split("(")[0] in ("SystemExit", "KeyboardInterrupt"):
                if not is_cli(p, m, f, n):
                    rep.add("exit", f"{q}: {ast.unparse(n)}", f"{m.rel}:{n.lineno}", "the library terminates the interpreter")
            elif isinstance(n, ast.Assign) and any(ast.unparse(t) in ("sys.stdout", "sys.stderr") for t in n.targets):
                rep.add("stdout", f"{q}: {ast.unparse(n)}", f"{m.rel}:{n.lineno}", "a standard stream of the process is replaced")
    # the mechanism itself
    for f in p.all_funcs():
        if isinstance(f.node, ast.Lambda) or f.is_abstract:
            continue
        if re.match(r"_?emit_(\w*_)?(warning|error|message)", f.name):
            rep.count("reporting_functions")
            for n in r.silent_exits(f):
                rep.add("warning-lost", f"{f.qual}", f.loc(n), "the message is dropped on this way out although no option of the caller asks for it")
        if re.match(r"_?raise_(?!if|when|unless|on_)", f.name):
            rep.count("raising_functions")
            o = Exec(Raises(r, f)).run(f.body, [0])
            o.ret = [(n, s) for n, s in o.ret if not (n.value is not None and any(isinstance(x, ast.Call) and never(p, r, f, x) for x in ast.walk(n.value)))]  # type: ignore
            if o.fall or o.ret:
                rep.add("raise-lost", f.qual, f.loc(), "a function documented to raise may return")
    rep.need("handlers", 10)
    rep.need("reporting_functions", 1)
    rep.assumptions = ["logging at level warning or above, the warning mechanism and stderr reach the caller", "debug / verbose / progress output is asked for by an option or a parameter"]
    return rep


def check_handler(p: Project, r: Rule, rep: Report, m: Module, f: Optional[Func], t: ast.Try, h: ast.ExceptHandler) -> None:
    q = f.qual if f is not None else m.name
    ts = handler_types(h)
    if f is None:
        f2 = Func(m.name, m.name, m, None, ast.parse("def f():\n    pass").body[0])
    else:
        f2 = f
    o = Exec(Report_(r, f2)).run(h.body, ["pending"])
    pending = [n for n, s in o.ret if s == "pending"] or ("pending" in o.fall or "pending" in o.brk or "pending" in o.cont)
    if not pending:
        rep.count("handlers_raising_or_reporting")
        return
    if set(ts) <= PROBES:
        rep.count("handlers_of_local_probes")
        return
    # the failure (the exception itself) is part of the result
    if h.name and all(n.value is not None and h.name in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} for n, s in o.ret) and o.ret and not o.fall:
        rep.count("handlers_returning_the_failure")
        return
    # pure computation with a fallback for the same variables
    if not project_calls(p, f, m, t.body) and assigned(t.body) == assigned(h.body) and "?" not in assigned(t.body):
        rep.count("handlers_with_a_fallback_value")
        return
    if f is not None and failure_value(p, f, o):
        rep.count("handlers_returning_a_failure_value")
        rep.sample(f"{f.loc(h)} {q}: except {', '.join(ts)} gives a failure value to its callers")
        return
    rep.add("swallowed", f"{q}: except {', '.join(ts)}", f"{m.rel}:{h.lineno}", f"a failure ({', '.join(ts)}) may be discarded here: neither raised, nor reported, nor returned on some path")


def check_call(p: Project, r: Rule, rep: Report, m: Module, f: Optional[Func], n: ast.Call, q: str) -> None:
    d = dotted(n.func)
    if d in ("sys.exit", "exit", "quit", "os._exit", "os.abort", "os.kill", "os.killpg", "signal.raise_signal", "faulthandler._sigsegv"):
        if not is_cli(p, m, f, n):
            rep.add("exit", f"{q}: {ast.unparse(n)}", f"{m.rel}:{n.lineno}", "the library terminates the interpreter")
        return
    if d in ("subprocess.run", "subprocess.call", "os.system"):
        rep.count("helper_processes")
        checked = any(k.arg == "check" and isinstance(k.value, ast.Constant) and k.value.value for k in n.keywords)
        if not checked:
            par = p.parent_of.get(n)
            used = False
            if isinstance(par, ast.Assign) and isinstance(par.targets[0], ast.Name) and f is not None:
                v = par.targets[0].id
                for x in p.own_nodes(f):
                    if isinstance(x, ast.Attribute) and x.attr in ("returncode", "check_returncode") and isinstance(x.value, ast.Name) and x.value.id == v:
                        used = True
                    if d != "subprocess.run" and isinstance(x, ast.Compare) and v in ast.unparse(x):
                        used = True
            elif d != "subprocess.run" and isinstance(par, (ast.Compare, ast.Return)):
                used = True
            elif isinstance(par, ast.Attribute) and par.attr in ("returncode", "check_returncode"):
                used = True
            if not used:
                rep.add("status-ignored", f"{q}: {d}", f"{m.rel}:{n.lineno}", "the exit status of the process is ignored: its failure goes unnoticed")
        return
    out = False
    if d in ("print", "pprint.pprint", "pprint", "rich.print"):
        fl = [k.value for k in n.keywords if k.arg in ("file", "stream")]
        out = not fl or "stdout" in ast.unparse(fl[0])
        if fl and isinstance(fl[0], ast.Constant) and fl[0].value is None:
            out = True
    elif d.startswith("sys.stdout.") or d.startswith("sys.__stdout__."):
        out = d.split(".")[-1] in ("write", "writelines", "buffer")
    elif d == "os.write" and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == 1:
        out = True
    elif d in ("logging.basicConfig", "logging.StreamHandler") and "stdout" in ast.unparse(n):
        out = True
    if not out:
        return
    rep.count("writes_to_stdout")
    if is_cli(p, m, f, n):
        return
    if f is not None and asked(p, r.g, f, n):
        rep.count("writes_to_stdout_asked_for")
        return
    rep.add("stdout", f"{q}: {ast.unparse(n)[:60]}", f"{m.rel}:{n.lineno}", "the library writes on stdout without being asked to")


def asked(p: Project, g: Guards, f: Func, n: ast.AST, depth: int = 0) -> bool:
    for e, t in g.at(f, n):
        if ASKED.search(ast.unparse(e)):
            return True
    if depth >= 4:
        return False
    sites = [s for s in p.call_sites().get(f.qual, []) if s[0] is None or s[0].name != f.name]
    if f.parent is not None:
        sites += [(f.parent, f.module, c) for c in p.own_nodes(f.parent) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == f.name]
    if not sites:
        return False
    return all(cf is not None and (asked(p, g, cf, call, depth + 1) or is_cli(p, mod, cf, call)) for cf, mod, call in sites)
