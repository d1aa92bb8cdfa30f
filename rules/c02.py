"""C02: generators in one process do not influence each other.

Shared state is anything that outlives a generation: module variables, class-level variables, default argument values,
function attributes, memoised results (lru_cache & co) and the state of the process.  The effect analysis gives every
modification which may reach such a location; each must be proved harmless (constant value, memo of a pure function,
one of the confirmed write-only statistics / console widgets), anything else is a violation."""
from __future__ import annotations

import ast

TECHNIQUE = "interprocedural effect analysis: writes reaching module-, class-, default-argument- or process-level state; purity analysis of memoised functions"
LEVEL_NOTE = ("Every write to shared state reachable through resolved calls and aliases is enumerated; the only ones accepted are constant values, memos of functions "
              "proved pure in their key, and console statistics/progress widgets whose values do not flow into generated text. State kept inside third-party modules is not seen.")

from vlib.report import Report
from vlib.project import Project, Func, dotted
from vlib import shared
from vlib.purity import Purity

# confirmed: classes/modules whose state only serves console output or profiling figures
BENIGN = [
    ("class", "_TimeStats", "profiling counters, only printed"),
    ("module", "codemanip.parse_progress_bar", "console progress widget, nothing generated reads it"),
    ("module", "codemanip.html_code_viewer", "unique ids of the html documentation viewer, not of generated code"),
]

PROCESS_CALLS = {
    "os.chdir", "os.putenv", "os.unsetenv", "os.umask", "locale.setlocale", "random.seed", "sys.setrecursionlimit", "os.environ.update", "os.environ.setdefault",
    "os.environ.pop", "os.environ.clear", "logging.basicConfig", "logging.disable", "warnings.filterwarnings", "warnings.simplefilter", "atexit.register", "signal.signal",
    "sys.path.append", "sys.path.insert", "sys.path.extend", "sys.path.remove", "logging.setLoggerClass", "os.setuid", "os.nice", "importlib.reload",
}
CACHE_DECOS = {"lru_cache", "cache", "cached", "memoize", "memoized", "singledispatch"}
CACHE_DECOS_INST = {"cached_property"}


def run(p: Project, tier: str) -> Report:
    e = shared.effects(p)
    rep = Report("C02", "no function writes module-level, class-level, default-argument, function-attribute or process state, and memoised functions are pure in their key")
    pur = Purity(p)
    rep.count("functions_analysed", len(e.top))
    rep.need("functions_analysed", 700)
    shared_vars = sum(len(v) for v in e.module_vars.values()) + sum(len(v) for v in e.class_level.values())
    rep.count("shared_variables", shared_vars)
    rep.need("shared_variables", 60)
    seen = set()
    for q, s in sorted(e.sum.items()):
        for m in s.muts.values():
            if m.root[0] not in ("g", "c") or m.root[1] in ("os.environ", "sys.path", "sys.modules"):
                continue
            k = (m.root, m.func, m.snippet)
            if k in seen:
                continue
            seen.add(k)
            rep.count("writes_to_shared_state_examined")
            why = benign(p, pur, m)
            if why:
                rep.count("accepted_with_proof_or_confirmation")
                rep.sample(f"{m.loc} {m.snippet}: {why}")
                continue
            if shared.is_restored(p, m):
                rep.count("temporary_and_restored")
                continue
            via = " <- ".join(f"{loc} {c.split('.')[-1]}" for loc, c in m.chain[:3])
            rep.add("shared-state-written", f"{m.func}: {m.snippet}", m.loc,
                    f"writes {'module' if m.root[0] == 'g' else 'class'}-level state {m.root[1]} ({m.attr}), which later generations see" + (f"; via {via}" if via else ""))
    # options: a value which is one object for all the instances would be modified by its users
    owned = shared.options_owned_classes(p, e.options_full)
    rep.count("option_classes", len(owned))
    for c in sorted(owned):
        if c not in p.classes or c in e.enum_classes:
            continue
        cl = p.classes[c]
        for a, v in e.class_level.get(c, {}).items():
            rep.count("class_level_defaults_of_options")
            anyf = next(iter(cl.methods.values()), None)
            if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (anyf is not None and is_mutable_expr(p, anyf, v) and not frozen(p, anyf, v)):
                rep.add("shared-default", f"{c}.{a}", f"{cl.module.rel}:{v.lineno}", f"the default value of the option '{a}' is one mutable object shared by all the options objects")
        init = cl.methods.get("__init__")
        if init is not None and init.qual in e.sum:
            for (tgt, fld, v) in sorted(e.sum[init.qual].stores, key=repr):
                if v[0][0] in ("g", "c"):
                    rep.add("shared-default", f"{c}.{fld} <- {v[0][1]}", init.loc(), f"the option '{fld}' is initialised with the shared object {v[0][1]}: modifying it in one options object changes all of them")
    # default values that escape
    for f in p.all_funcs():
        for prm, d in defaults(f):
            if not is_mutable_expr(p, f, d):
                continue
            rep.count("mutable_default_arguments")
            bad = default_escapes(p, f, prm)
            if bad is not None:
                rep.add("mutable-default", f"{f.qual}({prm})", f.loc(bad), f"the default value of '{prm}' is one object shared by all the calls, and it {('is stored, returned or modified')} here")
    # memoised functions
    for f in p.all_funcs():
        for d in f.decorators:
            last = d.split(".")[-1]
            if last in CACHE_DECOS:
                rep.count("memoised_functions")
                why = pur.impure_reason(f)
                if why is None and not pur.immutable_result(f):
                    why = "it returns a mutable object, shared between all the callers"
                if why:
                    rep.add("memo-impure", f.qual, f.loc(), f"memoised for the whole process, but {why}")
                else:
                    rep.sample(f"{f.qual}: memoised, pure in its arguments")
    # process state
    in_main = {f for f in p.all_funcs() if f.name in ("main",) or f.name.startswith("_main")}
    for f in p.all_funcs():
        for n in ast.walk(f.node):
            if p.enclosing_func(n) is not f:
                continue
            bad = None
            if isinstance(n, ast.Call):
                d = p.full_name(f.module, n.func)
                if d in PROCESS_CALLS:
                    bad = d
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                for t in tg:
                    b = t.value if isinstance(t, ast.Subscript) else t
                    d = p.full_name(f.module, b) if isinstance(b, (ast.Attribute, ast.Name)) else ""
                    if d in ("os.environ", "sys.path", "sys.modules", "sys.stdout", "sys.stderr", "sys.argv", "sys.excepthook", "builtins.print"):
                        bad = f"{d} ="
            if bad:
                rep.count("process_state_writes")
                from vlib.restore import context_manager_pair
                if shared.restore(p, f).is_clean(n.lineno):
                    rep.count("temporary_and_restored")
                    continue
                if benign_process(p, f, n, bad):
                    rep.sample(f"{f.loc(n)} {bad}: environment of the whole machine image, independent of inputs and options")
                    continue
                rep.add("process-state-written", f"{f.qual}: {bad}", f.loc(n), f"changes the state of the process ({bad}), which later generations see")
    rep.assumptions = ["third-party modules keep no state that influences later calls (srcml_caller, black, ElementTree)"]
    return rep


def benign_process(p: Project, f: Func, n: ast.AST, bad: str) -> bool:
    # run at import, guarded by the environment only, never by inputs: no parameter, called at module level only
    if f.params or bad != "os.environ =":
        return False
    callers = p.callers_of(f)
    return bool(callers) and all(c is None for c in callers)


def benign(p: Project, pur: Purity, m) -> str:
    f = p.funcs.get(m.func)
    cls = [c for c in m.cls.split("|") if c]
    for kind, name, why in BENIGN:
        if kind == "class" and cls and all(c.split(".")[-1] == name for c in cls):
            return why
        if kind == "module" and f is not None and (f.module.name == name or f.module.name.startswith(name + ".")):
            return why
    if f is None:
        return ""
    line = int(m.loc.rsplit(":", 1)[1])
    for n in ast.walk(f.node):
        if getattr(n, "lineno", None) != line:
            continue
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and pur.constant_expr(f.module, n.value):
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(tg, (ast.Name, ast.Attribute)) and only_this_constant(p, f, tg, n.value):
                return "always the same constant"
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            if pur.is_memo_store(f, n):
                return "memo of a function which is pure in its key"
    return ""


def only_this_constant(p: Project, f: Func, tg: ast.AST, value: ast.expr) -> bool:
    """every write in the program to that location gives the same constant (so it does not matter who was first), and
    nothing reads it before (guarded by hasattr) - or it is read in the function that sets it only"""
    name = tg.attr if isinstance(tg, ast.Attribute) else tg.id
    dump = ast.dump(value)
    for g in p.all_funcs():
        for n in ast.walk(g.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    tn = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else None
                    if tn == name and type(t) is type(tg) and g.module is f.module and ast.dump(t).replace("Load", "") == ast.dump(tg).replace("Load", "") and ast.dump(n.value) != dump:
                        return False
    if isinstance(tg, ast.Name):
        # a module variable switched to a constant: other functions see the change
        return False
    # attribute: other functions must not read it
    for g in p.all_funcs():
        if g is f:
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load) and ast.dump(n.value) == ast.dump(tg.value) and g.module is f.module and p.enclosing_func(n) is g and g.parent is not f:
                return False
    # and the variable must not have a different initial value
    return not has_initial_value(p, f, tg)


def has_initial_value(p: Project, f: Func, tg: ast.Attribute) -> bool:
    if isinstance(tg.value, ast.Name):
        for c in p.cls_by_name.get(tg.value.id, []):
            for st in c.node.body:
                if isinstance(st, (ast.Assign, ast.AnnAssign)):
                    ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                    if any(isinstance(t, ast.Name) and t.id == tg.attr for t in ts) and st.value is not None:
                        return True
        if tg.value.id in ("self", "cls"):
            return True
    return False


def frozen(p: Project, f: Func, v: ast.expr) -> bool:
    return isinstance(v, ast.Call) and dotted(v.func).split(".")[-1] == "field"


def defaults(f: Func):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        yield x.arg, d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            yield x.arg, d


def is_mutable_expr(p: Project, f: Func, d: ast.expr) -> bool:
    if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(d, ast.Call):
        c = p.constructed_class(f.module, d)
        if c is not None:
            return True
        return dotted(d.func).split(".")[-1] in ("list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter", "bytearray")
    return False


def default_escapes(p: Project, f: Func, prm: str):
    """a statement by which the default object is kept or modified"""
    from vlib.effects import MUTATORS
    names = {prm}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
            for t in n.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    return n
        if isinstance(n, (ast.Return, ast.Yield)) and isinstance(n.value, ast.Name) and n.value.id in names:
            return n
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in names:
            return n
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in names and n.func.attr in MUTATORS:
            return n
        if isinstance(n, (ast.Assign, ast.Delete)):
            for t in n.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)) and isinstance(t.value, ast.Name) and t.value.id in names:
                    return n
    return None
