"""C03: output is a deterministic function of the code and the options.

Whole-program taint analysis. Sources: the order of sets, directory listings and concurrent results; clock, random numbers,
environment variables, process identity, temporary names; addresses and hashes (id, hash, default object representation).
Sinks: what the public functions and the public methods of the public classes return, what their attributes hold, what is
written to files."""
from __future__ import annotations

import ast

from vlib.report import Report
from vlib.project import Func, Project, dotted, type_classes
from vlib.taint import Run, Taint, L, NONE

TECHNIQUE = "interprocedural information-flow (taint) analysis with implicit flows, from the sources of run-to-run variation to everything returned by the public API or written to files; order taint removed by order-insensitive consumers"
LEVEL_NOTE = ("Flow-sensitive within functions, summaries between them, attributes merged per class; sets are recognised by mypy's types (sets of int iterate deterministically). "
              "The external parser (srcML) is taken as deterministic; control flow through exceptions is not followed.")

VALUE_CALLS = ("time.", "datetime.", "random.", "uuid.", "secrets.", "os.environ.", "os.getenv", "os.urandom", "os.getpid", "os.getppid", "os.getlogin", "os.cpu_count", "getpass.", "platform.", "socket.gethostname",
               "threading.get_ident", "threading.current_thread", "threading.active_count", "os.stat", "os.path.getmtime", "os.path.getctime", "os.path.getatime", "multiprocessing.current_process", "locale.",
               "sys.getsizeof", "shutil.get_terminal_size", "os.get_terminal_size", "gc.", "tracemalloc.", "resource.", "sys.getrefcount", "psutil.")
VALUE_OK = ("time.sleep", "datetime.timedelta", "time.strptime", "random.seed", "platform.python_implementation")
VALUE_ATTRS = {"os.environ", "sys.argv", "sys.executable", "sys.path", "sys.flags", "sys.hash_info"}
TEMP = ("tempfile.mkdtemp", "tempfile.mkstemp", "tempfile.mktemp", "tempfile.TemporaryDirectory", "tempfile.NamedTemporaryFile")
UNORDERED_CALLS = {"os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob", "concurrent.futures.as_completed", "asyncio.as_completed", "os.fwalk", "vars", "globals", "locals"}
UNORDERED_METHODS = {"iterdir", "glob", "rglob", "imap_unordered", "walk"}
PATH_USERS = {"open", "io.open"}


SETS = {"builtins.set", "builtins.frozenset", "typing.AbstractSet", "typing.MutableSet", "collections.abc.Set"}


def set_type(t, depth: int = 0) -> bool:
    """a set whose order varies (sets of small integers do not)"""
    if t is None or depth > 4:
        return False
    k = type(t).__name__
    if k == "UnionType":
        return any(set_type(x, depth + 1) for x in t.items)
    if k == "TypeAliasType":
        from mypy.types import get_proper_type
        return set_type(get_proper_type(t), depth + 1)
    if k == "PartialType":
        return t.type is not None and t.type.fullname in SETS
    if k == "Instance" and t.type.fullname in SETS:
        a = str(t.args[0]) if t.args else ""
        return a not in ("int", "bool", "builtins.int", "builtins.bool", "Never")
    return False


class Sources:
    def __init__(self, p: Project):
        self.p = p
        self.seen: set = set()
        self._repr: dict[str, bool] = {}

    def address_repr(self, f: Func, n: ast.AST) -> bool:
        cs = self.p.classes_of(f.module, n)
        for c in cs:
            r = self._repr.get(c)
            if r is None:
                r = False
                if c in self.p.classes:
                    r = True
                    for k in self.p.mro(c):
                        ci = self.p.classes.get(k)
                        if ci is None:
                            if k.split(".")[-1] in ("Enum", "IntEnum", "Flag", "str", "int", "Exception", "NamedTuple", "dict", "list", "Munch", "TypedDict", "Protocol", "Generic", "ABC") or not k.startswith("builtins.object"):
                                r = r and k.split(".")[-1] in ("ABC", "object", "Generic", "Protocol")
                            continue
                        if "__str__" in ci.methods or "__repr__" in ci.methods or "__format__" in ci.methods:
                            r = False
                        if any(dotted(d).split(".")[-1] == "dataclass" for d in ci.node.decorator_list):
                            r = False
                self._repr[c] = r
            if r:
                return True
        if type(self.p.mtype(f.module, n)).__name__ in ("CallableType", "Overloaded") and isinstance(n, (ast.Name, ast.Attribute, ast.Lambda)):
            return True
        return False

    def value(self, f: Func, n: ast.AST) -> frozenset:
        if isinstance(n, ast.Call):
            d = self.p.full_name(f.module, n.func) or dotted(n.func)
            if d.startswith(VALUE_CALLS) and not d.startswith(VALUE_OK):
                self.seen.add(n)
                return L([("value", f"{d}()", f.loc(n))])
            if d in TEMP:
                self.seen.add(n)
                return L([("value", f"{d}()", f.loc(n))])
            if d in ("id", "hash", "builtins.id", "builtins.hash", "object.__hash__", "object.__repr__"):
                self.seen.add(n)
                return L([("value", f"{d.split('.')[-1]}({ast.unparse(n.args[0])[:20] if n.args else ''})", f.loc(n))])
            if d in ("str", "repr", "builtins.str", "builtins.repr", "format") and n.args and self.address_repr(f, n.args[0]):
                self.seen.add(n)
                return L([("value", f"the address shown by {ast.unparse(n)[:40]}", f.loc(n))])
        elif isinstance(n, ast.Attribute):
            d = self.p.full_name(f.module, n) or dotted(n)
            if d in VALUE_ATTRS:
                self.seen.add(n)
                return L([("value", d, f.loc(n))])
        elif isinstance(n, ast.FormattedValue) and self.address_repr(f, n.value):
            self.seen.add(n)
            return L([("value", f"the address shown by {ast.unparse(n.value)[:40]}", f.loc(n))])
        return NONE

    def unordered(self, f: Func, e: ast.AST) -> bool:
        if isinstance(e, ast.Call):
            d = self.p.full_name(f.module, e.func) or dotted(e.func)
            if d in UNORDERED_CALLS - {"vars", "globals", "locals"}:
                self.seen.add(e)
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in UNORDERED_METHODS and ("Path" in str(self.p.mtype(f.module, e.func.value)) or e.func.attr == "imap_unordered"):
                self.seen.add(e)
                return True
            if d in ("enumerate", "iter", "list", "tuple", "reversed", "zip", "map", "filter", "itertools.chain", "builtins.enumerate"):
                return any(self.unordered(f, a) for a in e.args)
        if isinstance(e, ast.Set):
            r = not all(isinstance(x, ast.Constant) and isinstance(x.value, int) for x in e.elts) and len(e.elts) > 1
        else:
            r = set_type(self.p.mtype(f.module, e))
        if r:
            self.seen.add(e)
        return r


def run(p: Project, tier: str) -> Report:
    rep = Report("C03", "nothing which varies from one run to the next (order of sets and directory listings, clock, environment, addresses, hashes) flows into what the public API returns, holds or writes")
    src = Sources(p)
    t = Taint(p, src.value, src.unordered)
    rep.count("functions_analysed", len(t.funcs))
    rep.count("sources_of_variation", len(src.seen))
    rep.count("tainted_attributes", len(t.heap))
    roots, classes = public(p)
    rep.count("public_functions_checked", len(roots))

    def say(kind: str, who: str, loc: str, labels: frozenset) -> None:
        for l in sorted(labels):
            if l[0] in ("order", "value") and not l[1].startswith("@"):
                if l[1].startswith("tempfile.") and "srcmlcpp_tools" in who:
                    continue  # the path of the example files is the result itself
                rep.add(kind, f"{who}: {l[1]}", l[2], f"{l[1]} flows into {who} ({loc})")

    for f in roots:
        say("returned", f"the result of {f.qual}", f.loc(), t.sum[f].ret)
        for prm, ls in t.sum[f].param_out.items():
            say("returned", f"the argument {prm} of {f.qual}", f.loc(), ls)
    for (c, a), ls in sorted(t.heap.items()):
        if c in classes and not a.startswith("_"):
            say("held", f"{c}.{a}", c, ls)
    for f in t.funcs:
        if ".html_code_viewer" in f.module.name:
            continue
        writes(p, f, t, say, rep)
    for n in list(src.seen)[:10]:
        rep.sample(ast.unparse(n)[:80])
    rep.need("functions_analysed", 600)
    rep.need("public_functions_checked", 250)
    if not t.converged:
        rep.notes.append("summaries still changing after the last pass")
    return rep


def public(p: Project) -> tuple[list[Func], set[str]]:
    names: set[str] = set()
    for pk in ("litgen", "srcmlcpp", "srcmlcpp_tools.pimpl_my_class"):
        m = p.modules.get(pk)
        if m is None:
            continue
        imps = p.imports(m)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == "__all__" for x in n.targets) and isinstance(n.value, (ast.List, ast.Tuple)):
                for e in n.value.elts:
                    if isinstance(e, ast.Constant):
                        names.add(str(e.value))
    roots: list[Func] = []
    classes: set[str] = set()
    for c in p.classes.values():
        if c.name in names or any(p.is_subclass(c.full, b) for b in ("AdaptedElement", "CppElement", "LitgenGenerator", "LitgenGeneratorTestsHelper")) or c.name in ("GeneratedCodes", "_GeneratedCode", "LitgenContext"):
            if c.name in ("SrcmlcppException",):
                continue
            classes.add(c.full)
    for f in p.all_funcs():
        if isinstance(f.node, ast.Lambda) or f.parent is not None:
            continue
        if f.name.startswith("_") and f.name not in ("__str__",):
            continue
        if f.cls is not None:
            if f.cls.full in classes:
                roots.append(f)
        elif f.name in names or f.module.name.endswith(("amalgamated_header", "code_utils", "cpp_to_python")):
            roots.append(f)
    return roots, classes


class _W(Run):
    """evaluates again, to see what is written"""

    def __init__(self, t: Taint, f: Func, say, rep):
        super().__init__(t, f)
        self.say, self.rep = say, rep

    def call(self, n, env, ctl):
        r = super().call(n, env, ctl)
        name = n.func.attr if isinstance(n.func, ast.Attribute) else dotted(n.func)
        if name in ("write", "writelines", "write_text", "write_bytes") and isinstance(n.func, ast.Attribute):
            recv = dotted(n.func.value)
            if not recv.startswith("sys."):
                self.rep.count("file_writes_checked")
                for a in n.args[:1]:
                    v = self.ev(a, env, ctl) | ctl
                    if self.t.unordered(self.f, a):
                        v |= L([("order", f"the order of `{ast.unparse(a)[:40]}`", self.f.loc(a))])
                    self.say("written", f"what {self.f.qual} writes", self.f.loc(n), L(l for l in v if not l[1].startswith("tempfile.")))
        return r


def writes(p, f, t, say, rep) -> None:
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.startswith("write") for n in p.own_nodes(f)):
        _W(t, f, say, rep).run()
