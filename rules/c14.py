"""C14: temporary changes are undone on every way out.

(pairs)  in every function that saves a location (attribute, option, item, working directory, logging level...) and
         puts it back, each change of that location is followed by the restoration on every path to every way out,
         exceptions included (path-sensitive typestate over the syntax tree);
(never)  a change of an option, of the process or of a shared element of the tree which is never put back at all is
         found by the effect analysis (the rules of C01, C02 and C09)."""
from __future__ import annotations

import ast

TECHNIQUE = "path-sensitive save/change/restore typestate with exceptional exits, completed by the interprocedural effect analysis for changes which are never restored"
LEVEL_NOTE = ("Every statement that calls something may raise; accessors without argument and the restoring statement itself are taken not to. "
              "Restorations are recognised when the saved variable is assigned back to the same access path (aliases of it included), or in the __exit__ of a context manager class.")

from vlib.report import Report
from vlib.project import Project
from vlib import shared


def run(p: Project, tier: str) -> Report:
    rep = Report("C14", "every change of a location which a function saves and restores is undone on every way out (returns, exceptions); "
                        "no option, process state or shared tree element is changed without being put back")
    pairs = 0
    for f in p.all_funcs():
        if isinstance(f.node, ast.Lambda):
            continue
        r = shared.restore(p, f)
        rep.count("functions_analysed")
        if not r.writes:
            continue
        rep.count("functions_writing_attributes")
        rest = getattr(r, "restored_locs", set())
        pairs += len(rest)
        for l in sorted(rest):
            rep.sample(f"{f.loc()} {f.qual}: saves, changes and restores {l}")
        for l, node, how in r.leaks:
            if l in rest:
                rep.add("not-restored", f"{f.qual}: {l}", f.loc(node), f"`{l}` is changed here and keeps its temporary value {how}")
    rep.count("save_restore_pairs", pairs)
    rep.need("functions_analysed", 700)
    from rules import c01, c02, c09
    for mod, rules in ((c01, ("options-modified",)), (c02, ("process-state-written",)), (c09, ("rendering-modifies-tree", "adapting-modifies-tree"))):
        sub = mod.run(p, tier)
        rep.errors += sub.errors
        for f in sub.findings:
            if f.rule in rules:
                rep.add("never-restored", f.construct, f.loc, f.message)
        for k in ("temporary_modifications_proved_restored", "temporary_and_restored"):
            rep.count(k, sub.counts.get(k, 0))
    rep.assumptions = ["a statement without call, subscript or raise does not raise", "KeyboardInterrupt between two statements is not considered"]
    return rep


