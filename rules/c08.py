"""C08: adapted functions forward every argument once and in order.

Each adapter of parameters is interpreted into a transducer (vlib/trans.py): for each path through an iteration over the parameters, what is
appended to the arguments of the call, to the visible parameters and to the input code. Then, on every path:
(once)     exactly one argument per parameter, in the order of the parameters (an argument given in advance by the previous parameter counts for
           the parameter whose iteration gives none, under the same condition on the same parameters)
(named)    an unchanged parameter is passed by its own name; a name built by the adapter is declared by the input code or is a visible parameter
(current)  the parameters which are walked through are those of the function as already adapted, not of the original function
(applied)  an adaptation which was computed is applied: code kept, function and callee replaced together
(joined)   the arguments are written all, in their order"""
from __future__ import annotations

import ast
import re
from typing import Any, Optional

from vlib.project import Func, Project
from vlib.report import Report
from vlib.trans import Exit, Explosion, Loop, Rec, State, Trans, Val, k

TECHNIQUE = "path-sensitive abstract interpretation of each adapter into a transducer (sequence of the arguments appended per path of an iteration), compared with 'one argument per parameter, in order'"
LEVEL_NOTE = "The conversion code itself (C++ text of the wrapper) is only checked for the names it declares; that it converts the value correctly is C++ semantics and is not judged. The nested dispatch on the numeric type is covered by C20."

ARGS, ADAPTER = "adapted_cpp_parameter_list", "LambdaAdapter"
PARAMS = re.compile(r"(\.parameter_list\.parameters|\.adapted_parameters\(\)|\._params\(\)|^self\.parameters)$")


def returns_adapter(f: Func) -> bool:
    a = getattr(f.node, "returns", None)
    return a is not None and ADAPTER in ast.unparse(a)


def gives_text(f: Func) -> bool:
    a = getattr(f.node, "returns", None)
    return a is not None and ast.unparse(a) in ("str", "Optional[str]", "str | None") and not any(isinstance(n, (ast.For, ast.While, ast.Try)) for n in ast.walk(f.node))


def base_source(src: Optional[Val]) -> Optional[tuple[str, str]]:
    """(the list of parameters, the slice of it which is walked through)"""
    if src is None:
        return None
    s = src.key
    m = re.fullmatch(r"enumerate\((.*)\)", s)
    if m:
        s = m.group(1)
    m = re.fullmatch(r"range\(len\((.*)\)\)", s)
    if m:
        s = m.group(1)
    m = re.fullmatch(r"(.*?)\[([^\[\]]*:[^\[\]]*)\]", s)
    sl = ""
    if m:
        s, sl = m.group(1), m.group(2)
    if PARAMS.search(s) and not re.match(r"\w+\(", s):
        return s, sl
    return None


def walks_params(src: Optional[Val]) -> bool:
    return src is not None and re.search(r"parameter_list\.parameters|adapted_parameters\(\)|_params\(\)|\bself\.parameters", src.key) is not None


def one_by_one(a: str, src: str) -> str:
    """what designates the parameter of the current iteration"""
    return a


def positive(r: Rec) -> frozenset[str]:
    return frozenset(a for a, b in r.facts.items() if b and "<i" in a and not a.startswith("lt("))


def shifted(a: str, d: int) -> str:
    def f(m: Any) -> str:
        o = int(m.group(1) or 0) + d
        return "<i>" if o == 0 else f"<i{o:+d}>"
    return re.sub(r"<i([+-]\d+)?>", f, a)


class Checker:
    def __init__(self, p: Project, rep: Report):
        self.p, self.rep = p, rep
        self.done: set[tuple] = set()

    def report(self, rule: str, key: str, f: Func, node: Any, msg: str) -> None:
        if (rule, key) in self.done:
            return
        self.done.add((rule, key))
        self.rep.add(rule, key, f.loc(node), msg)

    def adapter(self, f: Func) -> None:
        t = Trans(self.p, lambda g: g.module is f.module and gives_text(g), max_depth=5, max_steps=60000)
        try:
            exits = t.run(f)
        except Explosion:
            t = Trans(self.p)
            exits = t.run(f)
        n = 0
        for x in exits:
            if x.kind != "return" or x.val.kind != "ref":
                continue
            h = x.st.heap.get(x.val.data, ("",))
            if h[0] != "obj" or not h[1].endswith("." + ADAPTER):
                continue
            n += 1
            self.built(f, t, x, h[2])
        self.rep.count("adapters")
        self.rep.count("ways_to_adapt", n)
        for L in t.loops.values():
            self.rep.count("paths_per_parameter", len(L.recs) if base_source(L.source) else 0)

    def built(self, f: Func, t: Trans, x: Exit, attrs: dict[str, Val]) -> None:
        args = attrs.get(ARGS)
        if args is None or args.kind != "ref" or x.st.heap.get(args.data, ("",))[0] != "list":
            self.report("once", f"{f.qual}: args", f, x.node, f"{f.name} returns an adapter whose list of arguments is not built on this path")
            return
        items = x.st.heap[args.data][1]
        vis: Optional[Val] = None
        visid = -1
        nf = attrs.get("new_function_infos")
        for (b, a), v in x.st.store.items():
            if a == "parameters" and b.endswith("parameter_list") and (nf is None or b.startswith(nf.key)):
                vis = v
        if nf is None or nf == k(None):
            self.report("applied", f"{f.qual}: function", f, x.node, f"{f.name} returns an adapter without the adapted function")
        elif "cpp_element()" in nf.key or "deepcopy" not in nf.key and "copy" not in nf.key:
            self.report("current", f"{f.qual}: function", f, x.node, f"{f.name} adapts {nf.key[:80]}, not a copy of the function as already adapted")
        name = attrs.get("lambda_name")
        if name is None or name == k(""):
            self.report("applied", f"{f.qual}: name", f, x.node, f"{f.name} returns an adapter without a name")
        kept = base_source(vis)
        if kept is not None and kept[1] == "":
            visid = -2  # the parameters are kept as they are
        elif vis is None or vis.kind != "ref":
            self.report("applied", f"{f.qual}: parameters", f, x.node, f"{f.name} does not set the parameters of the adapted function")
        if vis is not None and vis.kind == "ref":
            visid = vis.data
        covered: list[str] = []
        explicit = 0
        for it in items:
            if it.kind == "star":
                L = t.loops[it.data]
                bs = base_source(L.source)
                if bs is None:
                    self.report("once", f"{f.qual}: order", f, L.node, f"the arguments follow {L.source.key[:80] if L.source else 'no list'}, which is not the parameters in their order")
                    continue
                if "cpp_element()." in bs[0] and "cpp_adapted_function" not in bs[0]:
                    self.report("current", f"{f.qual}: source", f, L.node, "the arguments follow the parameters of the original function, not of the function as already adapted")
                covered.append(bs[1])
                self.loop(f, t, L, args.data, visid, x)
            elif it.kind in ("mut", "rewritten", "set", "all"):
                self.report("once", f"{f.qual}: {it.kind}", f, x.node, f"the arguments are reordered or replaced ({it.key[:80]})")
            else:
                explicit += 1
                if not (it.kind == "k" or PARAMS_IN.search(it.key)):
                    self.report("once", f"{f.qual}: explicit", f, x.node, f"argument {it.key[:80]} does not come from a parameter")
        if covered == [""] and explicit == 0:
            return
        if not covered:
            self.report("once", f"{f.qual}: none", f, x.node, f"no argument is taken from the parameters on a path of {f.name}")
            return
        missing = 0
        for c in covered:
            m = re.fullmatch(r":-(\d+)", c)
            missing += int(m.group(1)) if m else 0 if c == "" else 10 ** 6
        if missing != explicit or len(covered) != 1:
            self.report("once", f"{f.qual}: slice", f, x.node, f"{f.name} passes the parameters [{covered[0] or ':'}] and {explicit} more argument(s)")

    def loop(self, f: Func, t: Trans, L: Loop, args: int, vis: int, x: Exit) -> None:
        more: list[Rec] = []
        none: list[Rec] = []
        # the adapter may write the whole call itself
        overridden = any(isinstance(n, ast.Attribute) and n.attr == "lambda_template_end" and isinstance(n.ctx, ast.Store) for n in self.p.own_nodes(f))
        for r in L.recs:
            if r.outcome in ("raise",):
                continue
            if r.outcome in ("break", "return"):
                self.report("once", f"{f.qual}: {r.outcome}", f, L.node, "the parameters after this one are not passed")
                continue
            got = r.lists.get(args, ())
            self.rep.count("obligations")
            n = 0
            for g in got:
                if g.kind == "star":
                    inner = t.loops[g.data]
                    self.report("once", f"{f.qual}: inner {inner.source.key[:30] if inner.source else ''}", f, inner.node, "one parameter gives a variable number of arguments")
                elif g.kind in ("mut", "rewritten", "set", "all"):
                    self.report("once", f"{f.qual}: {g.kind}", f, L.node, f"the arguments are reordered or replaced ({g.key[:60]})")
                else:
                    n += 1
            if n == 2:
                more.append(r)
            elif n == 0:
                none.append(r)
            elif n != 1:
                self.report("once", f"{f.qual}: {n}", f, L.node, f"a parameter is passed {n} times when {self.when(r)}")
            self.named(f, t, L, r, got, r.lists.get(vis, ()), vis, overridden)
        self.pairs(f, L, more, none)

    def when(self, r: Rec) -> str:
        return " and ".join(("" if b else "not ") + a[-70:] for a, b in list(r.facts.items())[:4]) or "nothing in particular"

    def pairs(self, f: Func, L: Loop, more: list[Rec], none: list[Rec]) -> None:
        if not more and not none:
            return
        a = frozenset.intersection(*[positive(r) for r in more]) if more else frozenset()
        b = frozenset.intersection(*[positive(r) for r in none]) if none else frozenset()
        # a record without an argument must be announced by the previous one, and conversely
        if not none:
            self.report("once", f"{f.qual}: twice", f, L.node, f"two arguments are passed for one parameter when {self.when(more[0])}")
        elif not more:
            self.report("once", f"{f.qual}: dropped", f, L.node, f"no argument is passed for a parameter when {self.when(none[0])}")
        elif not a or not b or frozenset(shifted(z, -1) for z in a) != b:
            self.report("once", f"{f.qual}: pairs", f, L.node, f"a parameter is passed in advance when {sorted(a)} but skipped when {sorted(b)}: not the same condition")

    def code(self, t: Trans, r: Rec) -> str:
        code = ""
        for nm, parts in r.texts.items():
            if nm.endswith(".lambda_input_code") and parts:
                for z in parts:
                    code += "," + z.key
                    if z.kind == "star":
                        for r2 in t.loops[z.data].recs:
                            for pp in r2.texts.values():
                                code += "".join("," + y.key for y in pp or ())
        return code

    def named(self, f: Func, t: Trans, L: Loop, r: Rec, got: tuple[Val, ...], seen: tuple[Val, ...], vis: int, overridden: bool) -> None:
        src = base_source(L.source)
        el = f"{src[0]}[{src[1]}][<i>]" if src and src[1] else f"{src[0]}[<i>]" if src else ""
        code = self.code(t, r)
        everywhere = "".join(self.code(t, r2) for r2 in L.recs)
        if vis == -2:
            seen = (Val("sy", el),)
        same = [v for v in seen if v.key in (el, el + ".cpp_element()")]
        for j, g in enumerate(got):
            if g.kind in ("star", "mut", "rewritten", "set", "all"):
                continue
            key = g.key
            if g.kind == "k":
                if overridden:
                    continue
                self.report("named", f"{f.qual}: constant", f, L.node, f"the constant {key} is passed for a parameter")
                continue
            if "<i" not in key:
                self.report("named", f"{f.qual}: {key[:40]}", f, L.node, f"{key[:80]} does not depend on the parameter it is passed for")
                continue
            bare = re.sub(r"\.(adapted_decl\(\)\.cpp_element\(\)|cpp_element\(\)\.decl|decl)\.decl_name$", "", key)
            if same and j == 0 and len(got) == 1:
                if bare != el:
                    self.report("named", f"{f.qual}: unchanged", f, L.node, f"an unchanged parameter is passed as {key[-80:]}")
                continue
            if bare == el and not seen and not code:
                self.report("named", f"{f.qual}: undeclared", f, L.node, "a parameter which was removed from the signature is passed by its name")
                continue
            if key.endswith(".default_value()"):
                continue
            if any(a == "decl_name" and v.key == key and b.split(".decl")[0].split(".cpp_element")[0] in code for (b, a), v in r.store.items()) and ".str_code()" in code:
                continue
            code = code or everywhere
            parts = g.data if g.kind == "cat" else (g,)
            ok = True
            for n, z in enumerate(parts):
                if z.kind == "k" or not z.key.endswith(("decl_name", "decl_name_cpp()")):
                    continue
                nx = parts[n + 1] if n + 1 < len(parts) else None
                suffix = re.match(r"\w*", str(nx.data)).group(0) if nx is not None and nx.kind == "k" else ""  # type: ignore
                if suffix:
                    ok = ok and re.search(re.escape(z.key) + ",['\"]" + re.escape(suffix) + r"(?!\w)", everywhere if re.search(r"\(\w+\(<i[^>]*>\)\)|<i[+-]", z.key) else code) is not None
                else:
                    ok = ok and (z.key in code or bool(seen))
            if not ok:
                self.report("named", f"{f.qual}: {re.sub(r'[^a-z_]+', ' ', key)[-40:]}", f, L.node, f"{key[-90:]} is passed but neither declared by the input code nor a visible parameter")


PARAMS_IN = re.compile(r"(\.parameter_list\.parameters|\.adapted_parameters\(\))\[")


def applied(p: Project, rep: Report, ck: Checker) -> None:
    """what adapters return is applied; what is applied is kept"""
    for f in p.all_funcs():
        if returns_adapter(f) or not f.module.name.startswith("litgen"):
            continue
        calls = []
        for n in p.own_nodes(f):
            if isinstance(n, ast.Call):
                ts, _ = p.callees(f.module, n)
                if any(returns_adapter(t) for t in ts) or any(c.endswith("." + ADAPTER) for c in p.classes_of(f.module, n)):
                    calls.append(n)
        if calls:
            t = Trans(p)
            try:
                exits = t.run(f)
            except Explosion as e:
                rep.notes.append(f"{f.qual}: {e}")
                continue
            groups: list[tuple[Any, tuple, dict[str, bool], str]] = [(x.node, x.st.events, x.st.facts, x.kind) for x in exits]
            for L in t.loops.values():
                groups += [(L.node, r.events, r.facts, r.outcome) for r in L.recs]
            for node, evs, facts, kind in groups:
                if kind == "raise":
                    continue
                for i, e in enumerate(evs):
                    if e[0] != "call" or len(e) < 5 or e[3] not in calls:
                        continue
                    rep.count("adaptations_computed")
                    res = e[4].key
                    if facts.get(f"eq({','.join(sorted((res, 'None')))})") is True or facts.get(res) is False:
                        continue
                    if not any(z[0] == "call" and any(a.key == res for a in z[2]) for z in evs[i + 1:]):
                        ck.report("applied", f"{f.qual}: {ast.unparse(e[3])[:40]}", f, e[3], f"the adaptation computed by {ast.unparse(e[3])[:60]} is not applied on a path")
        # the function which applies one
        ad = [a.arg for a in getattr(getattr(f.node, "args", None), "args", []) if a.annotation is not None and ADAPTER in ast.unparse(a.annotation)]
        stores = {n.attr for n in p.own_nodes(f) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        if ad and stores & {"cpp_adapted_function", "lambda_to_call", "cpp_adapter_code"}:
            rep.count("appliers")
            t = Trans(p)
            for x in t.run(f):
                if x.kind != "return":
                    continue
                st = {a: v for (b, a), v in x.st.store.items()}
                if not (st.get("cpp_adapted_function") and st["cpp_adapted_function"].key == f"{ad[0]}.new_function_infos"):
                    ck.report("applied", f"{f.qual}: function", f, x.node, "the adapted function does not become the function adapted by this adapter")
                if not (st.get("lambda_to_call") and st["lambda_to_call"].key == f"{ad[0]}.lambda_name"):
                    ck.report("applied", f"{f.qual}: callee", f, x.node, "the next adapter will not call the wrapper made by this one")
                code = st.get("cpp_adapter_code")
                old = next((b for (b, a) in x.st.store if a == "cpp_adapter_code"), "")
                oldk = f"{old}.cpp_adapter_code"
                isnone = x.st.facts.get(f"eq({','.join(sorted((oldk, 'None')))})") is True or x.st.facts.get(oldk) is False
                if code is None or code == k(None) or not (isnone or code.kind == "cat" and code.data[0].key == oldk):
                    ck.report("applied", f"{f.qual}: code", f, x.node, "the code of the previous adapters is not kept in front of the code of this one")


def joined(p: Project, rep: Report, ck: Checker) -> None:
    for m in p.modules.values():
        if not m.name.startswith("litgen") or "tests" in m.name:
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr == ARGS and isinstance(n.ctx, ast.Load):
                f = p.enclosing_func(n)
                par = p.parent_of.get(n)
                if f is None:
                    continue
                rep.count("uses_of_the_arguments")
                if isinstance(par, ast.Subscript) and par.value is n or isinstance(par, ast.Call) and isinstance(par.func, ast.Name) and par.func.id in ("reversed", "sorted", "set"):
                    ck.report("joined", f"{f.qual}", f, n, f"only a part of the arguments, or another order, is used: {ast.unparse(par)[:80]}")
                elif isinstance(par, ast.comprehension) and par.ifs:
                    ck.report("joined", f"{f.qual}", f, n, "arguments are filtered out of the call")
    # texts made of one item per parameter, separated by commas
    for f in p.all_funcs():
        if not f.module.name.startswith(("litgen", "srcmlcpp")) or returns_adapter(f):
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr == "join" and isinstance(n.value, ast.Constant) and str(n.value.value).strip() == "," for n in p.own_nodes(f)):
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr in ("parameters", "adapted_parameters") for n in p.own_nodes(f)):
            continue
        t = Trans(p)
        try:
            exits = t.run(f)
        except Explosion as e:
            rep.notes.append(f"{f.qual}: {e}")
            continue
        rep.count("lists_of_parameters")
        for L in t.loops.values():
            if not walks_params(L.source):
                continue
            if base_source(L.source) is None or base_source(L.source)[1]:  # type: ignore
                ck.report("joined", f"{f.qual}: order", f, L.node, f"{L.source.key[-80:] if L.source else ''} is not the parameters, all and in their order")
            ids = {i for r in L.recs for i, v in r.lists.items() if v}
            for r in L.recs:
                if r.outcome in ("raise",) or not ids:
                    continue
                rep.count("obligations")
                for i in ids:
                    if r.outcome == "next" and len([v for v in r.lists.get(i, ()) if v.kind not in ("star",)]) != 1 or r.outcome in ("break",) or r.outcome == "continue" and len(r.lists.get(i, ())) != 1:
                        ck.report("joined", f"{f.qual}: items", f, L.node, f"a parameter gives {len(r.lists.get(i, ()))} item(s) when {ck.when(r)}")


def run(p: Project, tier: str) -> Report:
    rep = Report("C08", "every way of adapting a function passes one argument per parameter, in order, by a declared name")
    ck = Checker(p, rep)
    fs = [f for f in p.all_funcs() if returns_adapter(f) and f.module.name.startswith("litgen") and "tests" not in f.module.name]
    for f in fs:
        if not any(isinstance(n, ast.Name) and n.id == ADAPTER and isinstance(p.parent_of.get(n), ast.Call) for n in ast.walk(f.node)) and not any(isinstance(n, ast.Call) for n in p.own_nodes(f)):
            continue
        try:
            ck.adapter(f)
        except Explosion as e:
            rep.notes.append(f"{f.qual}: {e}")
    applied(p, rep, ck)
    joined(p, rep, ck)
    rep.need("adapters", 8)
    rep.need("obligations", 20)
    rep.need("adaptations_computed", 1)
    rep.need("appliers", 1)
    return rep
