"""C01: generating or parsing never modifies the caller's options.

Interprocedural effect analysis over access paths: every modification (assignment, deletion, in-place operator,
mutating method, setattr) of an object which may be an options object that the function did not create, or be held
by it, is a violation - unless it is temporary and undone on every way out (decided by the save/restore analysis)."""
from __future__ import annotations

import ast

TECHNIQUE = "interprocedural effect (mod/alias) analysis over access paths on the mypy-typed AST, plus save/restore typestate with exceptional exits"
LEVEL_NOTE = ("Over-approximates every modification reachable through resolved calls, aliases and containers (paths of length 4); trusts mypy's types and that "
              "user-supplied callbacks do not modify the options.")

from vlib.report import Report
from vlib.project import Project, AnalysisError
from vlib import shared
from vlib.effects import STAR


def run(p: Project, tier: str) -> Report:
    e = shared.effects(p)
    rep = Report("C01", "no function modifies (directly, through an alias, a container it holds or a callee) an options object it did not create, "
                        "except temporarily with restoration on every way out including exceptions")
    opts = e.options_full
    if len(opts) < 2:
        raise AnalysisError("the options classes were not found")
    owned = shared.options_owned_classes(p, opts)
    cpp = shared.cpp_classes(p)
    config_modules = {p.classes[c].module.name for c in owned if c in p.classes}
    rep.count("functions_analysed", len(e.top))
    rep.count("calls", e.n_calls)
    rep.count("calls_resolved_in_project", e.n_resolved)
    rep.need("functions_analysed", 700)
    rep.count("option_classes", len(owned))
    n_reads = 0
    for f in p.all_funcs():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and p.classes_of(f.module, n.value) & opts:
                n_reads += 1
    rep.count("accesses_to_options", n_reads)
    rep.need("accesses_to_options", 150)
    if not e.converged:
        rep.errors.append("the effect analysis did not converge")

    def relevant(m) -> bool:
        cls = [c for c in m.cls.split("|") if c]
        if m.path and m.path[-1] == STAR:
            # imprecise path: only believed when the class tells that the object is held by options
            return bool(cls) and all(c in owned for c in cls)
        if cls and all(c in cpp for c in cls):
            return False
        if cls and all(c in p.classes and c not in owned for c in cls):
            return False
        return True

    seen = set()
    n_mut = 0
    for q, s in sorted(e.sum.items()):
        f = p.funcs[q]
        for m in s.muts.values():
            hit = False
            if m.root[0] == "O":
                hit = relevant(m)
            elif m.root[0] == "p" and m.func == q:
                # an entry point that modifies the options given as a parameter
                prm = f.params[m.root[1]] if m.root[1] < len(f.params) else ""
                is_self = f.cls is not None and not f.is_static and m.root[1] == 0
                if is_self:
                    continue
                ann = _param_classes(p, f, prm)
                if ann & owned and f.module.name not in config_modules:
                    hit = relevant(m) or not m.path
            if not hit:
                continue
            n_mut += 1
            k = (m.func, m.attr, m.snippet)
            if k in seen:
                continue
            seen.add(k)
            if shared.is_restored(p, m):
                rep.count("temporary_modifications_proved_restored")
                rep.sample(f"{m.loc} {m.snippet}: temporary, restored on every way out")
                continue
            owner = ".".join(str(x) for x in m.path) or "options"
            via = " <- ".join(f"{loc} {callee.split('.')[-1]}" for loc, callee in m.chain[:4])
            rep.add("options-modified", f"{m.func}: {m.snippet}", m.loc,
                    f"modifies {owner} ({m.attr}) of an options object that belongs to the caller" + (f"; reached from {via}" if via else ""))
    rep.count("modifications_of_options_seen", n_mut)
    # class level / default values shared by all the options objects
    rep.assumptions = ["user callbacks and options predicates do not modify the options", "mypy's types are right (the tree type-checks without error)"]
    return rep


def _param_classes(p: Project, f, prm: str) -> set:
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == prm and x.annotation is not None:
            out = set()
            for n in ast.walk(x.annotation):
                name = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    name = n.value.split(".")[-1]
                if name:
                    out |= {c.full for c in p.cls_by_name.get(name, [])}
            return out
    return set()
