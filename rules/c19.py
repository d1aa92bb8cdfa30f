"""C19: no Python slip.

(types)    the type-checked program has no reference to a name, attribute, argument or optional value that may not exist
(unbound)  every local variable is bound on each path to each of its reads (correlated conditions are followed)
(iterated) no list, set or dictionary is changed by the body of a loop over itself, unless the loop is left at once
(empty)    a sequence indexed by a constant is long enough: the conditions holding at the index, the value it was
           given, or what every caller guarantees, prove it
(number)   text is converted to a number only where the conversion cannot fail or its failure is handled"""
from __future__ import annotations

import ast
import re
from typing import Any, Optional

TECHNIQUE = "type checking (mypy as a library), path-sensitive definite assignment, guarded-index lower bounds, and syntactic mutation-while-iterating analysis with receiver-local calls opened"
LEVEL_NOTE = ("Attribute and name errors are decided by the types mypy infers; values typed Any are not. Index bounds cover constant indices; a small committed table lists the sequences which are "
              "non-empty by construction (e.g. CppType.typenames). Recursion depth and memory are out of scope.")

from vlib.report import Report
from vlib.project import Func, Project
from vlib.definite import undefined_reads
from vlib.guards import Guards
from vlib.nonempty import Lengths

CODES = {"name-defined", "attr-defined", "call-arg", "used-before-def", "syntax", "valid-type", "abstract", "call-overload", "func-returns-value", "str-format", "dict-item-missing", "exit-return"}
NONE_CODES = {"union-attr", "index", "operator", "misc", "arg-type"}

# sequences which are never empty by construction, or whose bound correlates two variables: text of the sequence -> why
NEVER_EMPTY = {
    r"(^|\.)typenames$": "parse_type refuses a type without a name (except auto and ..., which have no declared value)",
    r"^(type_list|name_list|new_output_function_params)$": "the adapter runs only when a parameter is returned: their number is asserted positive",
    r"^= _split_cpp_type_template_args\(": "the text contains '<' (tested just before), so that it is split in three parts",
    r"^namespace_names$": "the recursion ends when one name is left",
    r"get_access_blocks\(": "a block is created just before when there is none",
    r"lambda_adapter_code$": "the code of an adapter, never empty",
    r"cpp_decls$": "a declaration statement which was parsed declares something",
    r"^what_to_find$": "words chosen by the user in the options: never empty",
    r"^= \w+\.split\(' (->|:) '\)$": "format of the replacement lines, documented and given by the developer",
    r"^s$": "words of a type: they are separated by one space",
}

MUTATORS = {"append", "remove", "pop", "insert", "clear", "extend", "add", "discard", "update", "popitem", "setdefault", "appendleft", "popleft", "difference_update", "intersection_update"}
COPIES = {"list", "tuple", "sorted", "set", "frozenset", "dict"}


def mypy_rule(p: Project, rep: Report) -> None:
    pat = re.compile(r"^(.*?):(\d+)(?::\d+)?: error: (.*?)  \[([a-z-]+)\]$")
    for line in p.mypy_errors:
        m = pat.match(line)
        if not m:
            continue
        path, lno, msg, code = m.groups()
        if code not in CODES and not (code in NONE_CODES and ("None" in msg or "deleted variable" in msg) and code != "arg-type"):
            continue
        if code == "union-attr" and '"None"' not in msg and "None" not in msg:
            continue
        rel = path.split("/src/", 1)[-1]
        fn = ""
        for f in p.all_funcs():
            if str(f.module.path) == path or f.module.rel.endswith(rel):
                n = f.node
                if n.lineno <= int(lno) <= (n.end_lineno or 0):
                    fn = f.qual
        rep.add("type-slip", f"{fn or rel}: {msg}", f"src/{rel}:{lno}", f"{msg} [{code}]")


def origins(f: Func, e: ast.expr) -> set[str]:
    """Texts of an expression: as it is written, and with its local variables replaced by what they are defined from"""
    r = {ast.unparse(e)}
    root: ast.expr = e
    while isinstance(root, (ast.Subscript, ast.Attribute)):
        root = root.value
    if not isinstance(root, ast.Name):
        return r
    for n in ast.walk(f.node):
        v: Optional[ast.expr] = None
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == root.id for t in n.targets):
            v = n.value
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == root.id:
            v = n.value
        elif isinstance(n, ast.NamedExpr) and n.target.id == root.id:
            v = n.value
        if v is not None:
            suffix = ast.unparse(e)[len(root.id):]
            r.add("= " + ast.unparse(v) + suffix)
    return r


def base_iterable(it: ast.expr) -> Optional[ast.expr]:
    """the container which is iterated itself (None when it is a copy)"""
    while True:
        if isinstance(it, ast.Call):
            fn = it.func
            if isinstance(fn, ast.Name) and fn.id in ("enumerate", "reversed", "zip", "iter", "filter", "map") and it.args:
                it = it.args[-1] if fn.id in ("filter", "map") else it.args[0]
                continue
            if isinstance(fn, ast.Attribute) and fn.attr in ("items", "keys", "values") and not it.args:
                it = fn.value
                continue
            return it if not it.args and isinstance(fn, ast.Attribute) and fn.attr not in ("copy",) else None
        if isinstance(it, (ast.Name, ast.Attribute)):
            return it
        return None


def changes(p: Project, g: Guards, f: Func, node: ast.AST, target: str, depth: int = 0, elements_too: bool = True) -> Optional[ast.AST]:
    """the statement below node that changes the size of the container named target"""
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and g.norm(f, n.func.value) == target:
            return n
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and g.norm(f, t.value) == target:
                    return n
        if isinstance(n, ast.AugAssign) and g.norm(f, n.target) == target and isinstance(n.op, (ast.Add, ast.BitOr, ast.Sub)):
            return n
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and g.norm(f, t.value) == target:
                    ty = str(p.mtype(f.module, t.value))
                    if isinstance(t.slice, ast.Slice) or "dict" in ty.lower() or "Dict" in ty:
                        return n
        # a method of the same object
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and depth < 3 and isinstance(n.func.value, ast.Name):
            recv = n.func.value.id
            if target.startswith(recv + "."):
                fs, _ = p.callees(f.module, n)
                for h in fs:
                    if h.params and h.cls is not None and not h.is_static and not isinstance(h.node, ast.Lambda):
                        t2 = h.params[0] + target[len(recv):]
                        for s in h.body:
                            if changes(p, g, h, s, t2, depth + 1) is not None:
                                return n
    return None


def leaves_at_once(p: Project, node: ast.AST, loop: ast.For) -> bool:
    """every way out of the statements following the change (up to the loop) leaves the loop"""
    cur: Optional[ast.AST] = node
    while cur is not None and cur is not loop:
        par = p.parent_of.get(cur)
        if isinstance(cur, ast.stmt) and par is not None:
            for fld in ("body", "orelse", "finalbody"):
                blk = getattr(par, fld, None)
                if isinstance(blk, list) and cur in blk:
                    for s in blk[blk.index(cur):]:
                        if isinstance(s, (ast.Break, ast.Return, ast.Raise)):
                            return True
                        if isinstance(s, ast.Continue):
                            return False
        cur = par
    return False


def iterated_rule(p: Project, g: Guards, rep: Report) -> None:
    for f in p.all_funcs():
        for n in p.own_nodes(f):
            if isinstance(n, ast.For):
                rep.count("loops")
                it = base_iterable(n.iter)
                if it is None:
                    continue
                if isinstance(it, ast.Call):
                    # an accessor: only when it returns the stored container itself
                    e = g.open_call(f, it)
                    if len(e) != 1 or not isinstance(e[0], (ast.Attribute, ast.Name)):
                        continue
                    target = g.norm(f, e[0])
                else:
                    target = g.norm(f, it)
                for s in n.body:
                    c = changes(p, g, f, s, target)
                    if c is not None:
                        # rebinding of a plain local by += of an immutable
                        if isinstance(c, ast.AugAssign) and "str" in str(p.mtype(f.module, c.target)):
                            continue
                        if not leaves_at_once(p, c, n):
                            rep.add("changed-while-iterated", f"{f.qual}: {target}", f.loc(c), f"`{target}` is changed here by the body of the loop over itself (line {n.lineno}): elements are skipped, or the iteration fails")
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for gen in n.generators:
                    it = base_iterable(gen.iter)
                    if it is None or isinstance(it, ast.Call):
                        continue
                    c = changes(p, g, f, n.elt if not isinstance(n, ast.DictComp) else n.value, g.norm(f, it))
                    if c is not None:
                        rep.add("changed-while-iterated", f"{f.qual}: {ast.unparse(it)}", f.loc(c), f"`{ast.unparse(it)}` is changed while it is iterated")


def index_rule(p: Project, g: Guards, rep: Report) -> None:
    L = Lengths(p, g)
    for f in p.all_funcs():
        for n in p.own_nodes(f):
            if not (isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load)):
                continue
            s = n.slice
            neg = isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub)
            if neg:
                s = s.operand
            if not (isinstance(s, ast.Constant) and isinstance(s.value, int) and not isinstance(s.value, bool)):
                continue
            ty = str(p.mtype(f.module, n.value))
            if "tuple" in ty.lower() or ty.lower().startswith(("dict", "builtins.dict", "re.match", "type[", "collections")) or "Match" in ty or ty in ("Any", "None"):
                if not (ty == "Any" and "code" in ast.unparse(n.value)):
                    continue
            need = s.value if neg else s.value + 1
            rep.count("constant_indices")
            if L.at_least(f, n, n.value) >= need:
                rep.count("constant_indices_proved")
                continue
            texts = origins(f, n.value) | {g.norm(f, n.value)}
            why = next((w for pat, w in NEVER_EMPTY.items() if any(re.search(pat, t) for t in texts)), None)
            if why is not None:
                rep.count("constant_indices_by_construction")
                rep.sample(f"{f.loc(n)} {ast.unparse(n)}: {why}", 20)
                continue
            rep.add("index-of-empty", f"{f.qual}: {ast.unparse(n)}", f.loc(n), f"nothing proves that `{ast.unparse(n.value)}` has {need} element(s) here")


def number_rule(p: Project, g: Guards, rep: Report) -> None:
    for f in p.all_funcs():
        for n in p.own_nodes(f):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("int", "float") and len(n.args) >= 1):
                continue
            a = n.args[0]
            ty = str(p.mtype(f.module, a))
            if ty in ("int", "float", "builtins.int", "builtins.float", "bool", "builtins.bool"):
                continue
            rep.count("number_conversions")
            if in_try(p, f, n):
                continue
            t = g.norm(f, a)
            ok = False
            for e, tr in g.at(f, n):
                txt = ast.unparse(e)
                # digits were tested, by a method or a regex on the same text
                if tr and (".isdigit()" in txt or ".isdecimal()" in txt or "is_float" in txt or "is_int" in txt or "match" in txt) and (t in txt or ast.unparse(a) in txt):
                    ok = True
            if ok or any(re.search(x, t) for x in TEXT_OF_SRCML for t in origins(f, a)):
                rep.count("number_conversions_guarded")
                continue
            # the failure is handled by every caller
            callers = p.call_sites().get(f.qual, [])
            if callers and all(cf is not None and in_try(p, cf, call) for cf, _, call in callers):
                rep.count("number_conversions_guarded")
                continue
            rep.add("number-from-text", f"{f.qual}: {ast.unparse(n)}", f.loc(n), f"`{ast.unparse(n)}` fails on a text which is no number, and nothing handles it")


# lookups whose key is present by construction: (container, why)
PRESENT = {
    r"attrib$": "attributes written by srcml",
    r"^deferred$": "filled at the same time as the dictionary tested just before",
    r"^fn_first_index$": "filled for each function before one of the same name is deferred",
    r"^= list\(reversed\(": "two of its elements were counted just before",
    r"c_array_code$": "the code of the array suffix, brackets included",
    r"specifiers(\)|$)": "called only with a specifier found in the list",
    r"^filtered_unit$": "children collected from this very element",
    r"^new_function_comment_lines$": "the key comes from the keys of the dictionary",
}


def lookup_rule(p: Project, g: Guards, rep: Report) -> None:
    """d[k], x.index(k) and x.remove(k): k is known to be there"""
    for f in p.all_funcs():
        for n in p.own_nodes(f):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Load, ast.Del)) and not isinstance(n.slice, ast.Slice):
                ty = str(p.mtype(f.module, n.value))
                if not (ty.startswith(("dict[", "builtins.dict[")) or "OrderedDict[" in ty[:40]):
                    continue
                cont, key = n.value, n.slice
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("index", "remove") and len(n.args) == 1:
                ty = str(p.mtype(f.module, n.func.value))
                if not (ty.startswith(("list[", "builtins.list[", "str", "builtins.str", "set[", "builtins.set["))):
                    continue
                cont, key = n.func.value, n.args[0]
            else:
                continue
            rep.count("lookups")
            if present(p, g, f, n, cont, key) or present_for_callers(p, g, f, cont, key) or matched_key(p, f, cont, key):
                rep.count("lookups_proved")
                continue
            why = next((w for pat, w in PRESENT.items() if any(re.search(pat, t) for t in origins(f, cont) | {g.norm(f, cont)})), None)
            if why:
                rep.count("lookups_by_construction")
                continue
            rep.add("missing-key", f"{f.qual}: {ast.unparse(n)}", f.loc(n), f"nothing proves that `{ast.unparse(key)}` is in `{ast.unparse(cont)}` here")


def matched_key(p: Project, f: Func, cont: ast.expr, key: ast.expr) -> bool:
    """the key is what was matched by an alternation of the keys of the same dictionary, quoted: '{' + key + '}' with the braces cut off, for example"""
    if not isinstance(cont, ast.Name):
        return False
    outer = f
    while outer.parent is not None:
        outer = outer.parent
    nodes = list(ast.walk(outer.node))
    defs: dict[str, list[ast.expr]] = {}
    for n in nodes:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            defs.setdefault(n.targets[0].id, []).append(n.value)

    def resolve(e: ast.expr) -> ast.expr:
        for _ in range(6):
            if isinstance(e, ast.Name) and len(defs.get(e.id, [])) == 1:
                e = defs[e.id][0]
        return e

    e = resolve(key)
    lo = hi = 0
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and e.slice.step is None:
        a, b = e.slice.lower, e.slice.upper
        if a is not None:
            if not (isinstance(a, ast.Constant) and isinstance(a.value, int)):
                return False
            lo = a.value
        if b is not None:
            if not (isinstance(b, ast.UnaryOp) and isinstance(b.op, ast.USub) and isinstance(b.operand, ast.Constant)):
                return False
            hi = b.operand.value  # type: ignore
        e = resolve(e.value)
    if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "group" and (not e.args or isinstance(e.args[0], ast.Constant) and e.args[0].value == 0)):
        return False

    def pieces(x: ast.expr, var: str) -> Optional[tuple[str, str]]:
        """(text before, text after) the variable"""
        flat: list[Any] = []

        def go(y: ast.expr) -> bool:
            if isinstance(y, ast.BinOp) and isinstance(y.op, ast.Add):
                return go(y.left) and go(y.right)
            if isinstance(y, ast.JoinedStr):
                return all(go(v) for v in y.values)
            if isinstance(y, ast.FormattedValue) and y.format_spec is None and y.conversion == -1:
                return go(y.value)
            if isinstance(y, ast.Constant) and isinstance(y.value, str):
                flat.append(y.value)
                return True
            if isinstance(y, ast.Name) and y.id == var:
                flat.append(None)
                return True
            return False

        if not go(x) or flat.count(None) != 1:
            return None
        i = flat.index(None)
        return "".join(flat[:i]), "".join(flat[i + 1:])

    # every regex used in the function is that alternation
    uses = [n for n in nodes if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "re" and n.func.attr in ("sub", "subn", "compile", "match", "search", "finditer", "fullmatch")]
    if not uses:
        return False
    for u in uses:
        pat = resolve(u.args[0]) if u.args else None
        if not (isinstance(pat, ast.Call) and isinstance(pat.func, ast.Attribute) and pat.func.attr == "join" and isinstance(pat.func.value, ast.Constant) and pat.func.value.value == "|" and len(pat.args) == 1):
            return False
        c = resolve(pat.args[0])
        if not (isinstance(c, (ast.GeneratorExp, ast.ListComp)) and len(c.generators) == 1 and not c.generators[0].ifs and isinstance(c.generators[0].target, ast.Name)):
            return False
        it = c.generators[0].iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("sorted", "list") and it.args:
            it = it.args[0]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "keys":
            it = it.func.value
        if ast.unparse(it) != cont.id:
            return False
        q = c.elt
        if not (isinstance(q, ast.Call) and ast.unparse(q.func) == "re.escape" and len(q.args) == 1):
            return False
        pp = pieces(q.args[0], c.generators[0].target.id)
        if pp is None or (len(pp[0]), len(pp[1])) != (lo, hi):
            return False
    return True


def present(p: Project, g: Guards, f: Func, n: ast.AST, cont: ast.expr, key: ast.expr) -> bool:
    cs = {ast.unparse(cont), g.norm(f, cont)}
    ks = {ast.unparse(key), g.norm(f, key)}
    a = g.aliases(f).get(cont.id) if isinstance(cont, ast.Name) else None
    if a is not None:
        cs.add(ast.unparse(a))
    a = g.aliases(f).get(key.id) if isinstance(key, ast.Name) else None
    if a is not None:
        ks.add(ast.unparse(a))

    def is_c(e: ast.AST) -> bool:
        while isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("keys", "copy") and not e.args or isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            e = e.value if isinstance(e, ast.Subscript) else e.func.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "sorted", "set", "reversed", "tuple") and e.args:
            return is_c(e.args[0])
        return ast.unparse(e) in cs or g.norm(f, e) in cs

    def is_k(e: ast.AST) -> bool:
        return ast.unparse(e) in ks or g.norm(f, e) in ks
    for e, t in g.at(f, n):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and is_k(e.left) and is_c(e.comparators[0]):
            if isinstance(e.ops[0], ast.In) == t and isinstance(e.ops[0], (ast.In, ast.NotIn)):
                return True
        if t and isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.args and is_c(e.func.value) and is_k(e.args[0]) and e.func.attr in ("startswith", "endswith", "__contains__", "count"):
            return True
    # the try around it
    cur: Optional[ast.AST] = n
    while cur is not None and cur is not f.node:
        par = p.parent_of.get(cur)
        if isinstance(par, ast.Try) and cur in par.body:
            for h in par.handlers:
                t = ast.unparse(h.type) if h.type is not None else "Exception"
                if any(k in t for k in ("KeyError", "LookupError", "ValueError", "BaseException")) or t == "Exception":
                    return True
        if isinstance(par, ast.For) and cur in par.body and is_k(par.target) and is_c(par.iter):
            return True
        if isinstance(par, ast.For) and cur in par.body and isinstance(par.target, ast.Tuple) and is_k(par.target.elts[0]):
            it = par.iter
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and is_c(it.func.value):
                return True
        if isinstance(par, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and any(is_k(c.target) and is_c(c.iter) for c in par.generators):
            return True
        if isinstance(cur, ast.stmt) and par is not None:
            for fld in ("body", "orelse", "finalbody"):
                blk = getattr(par, fld, None)
                if isinstance(blk, list) and cur in blk:
                    for st in blk[: blk.index(cur)]:
                        todo = [st]
                        # if k not in d: d[k] = ...
                        if isinstance(st, ast.If) and not st.orelse:
                            fs = g.facts(f, st.test, False)
                            if any(isinstance(e, ast.Compare) and len(e.ops) == 1 and is_k(e.left) and is_c(e.comparators[0]) and isinstance(e.ops[0], ast.In) == t for e, t in fs):
                                todo = list(st.body)
                        elif isinstance(st, ast.If):
                            a1 = [x for x in st.body if stores(x, is_c, is_k)]
                            a2 = [x for x in st.orelse if stores(x, is_c, is_k)]
                            if (a1 or g.terminates(f, st.body)) and (a2 or g.terminates(f, st.orelse)):
                                return True
                        if any(stores(x, is_c, is_k) for x in todo):
                            return True
        cur = par
    return False


def present_for_callers(p: Project, g: Guards, f: Func, cont: ast.expr, key: ast.expr) -> bool:
    """the lookup is made of parameters: every call site knows that the key is present"""
    import copy
    sites = p.call_sites().get(f.qual, [])
    names = {x.id for e in (cont, key) for x in ast.walk(e) if isinstance(x, ast.Name)}
    if not sites or not names or not names <= set(f.params) | {"self"}:
        return False
    for cf, mod, call in sites:
        if cf is None:
            return False
        sub: dict[str, ast.expr] = {}
        params = list(f.params)
        if f.cls is not None and not f.is_static and params:
            if isinstance(call.func, ast.Attribute):
                sub[params[0]] = call.func.value
            params = params[1:]
        for prm, a in zip(params, call.args):
            sub[prm] = a
        for k in call.keywords:
            if k.arg:
                sub[k.arg] = k.value
        if not names <= set(sub):
            return False

        class S(ast.NodeTransformer):
            def visit_Name(self, n: ast.Name):
                return copy.deepcopy(sub[n.id]) if n.id in sub else n
        if not present(p, g, cf, call, S().visit(copy.deepcopy(cont)), S().visit(copy.deepcopy(key))):
            return False
    return True


def stores(st: ast.stmt, is_c, is_k) -> bool:
    if isinstance(st, (ast.Assign, ast.AnnAssign)):
        for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
            if isinstance(t, ast.Subscript) and is_c(t.value) and is_k(t.slice):
                return True
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute):
        c = st.value
        if c.func.attr in ("append", "add", "setdefault") and c.args and is_c(c.func.value) and is_k(c.args[0]):
            return True
    return False


# positions written by srcml itself
TEXT_OF_SRCML = [r"\.split\(':'\)\[[01]\]", r"tabs", r"pos_str|position"]


def in_try(p: Project, f: Func, node: ast.AST) -> bool:
    cur: Optional[ast.AST] = node
    while cur is not None and cur is not f.node:
        par = p.parent_of.get(cur)
        if isinstance(par, ast.Try) and cur in par.body and par.handlers:
            for h in par.handlers:
                t = ast.unparse(h.type) if h.type is not None else "Exception"
                if any(k in t for k in ("ValueError", "Exception")) and "Srcmlcpp" not in t:
                    return True
        cur = par
    return False


def unbound_rule(p: Project, rep: Report) -> None:
    for f in p.all_funcs():
        if isinstance(f.node, ast.Lambda):
            continue
        rep.count("functions_checked_for_unbound_variables")
        for name, n in undefined_reads(p, f):
            rep.add("unbound", f"{f.qual}: {name}", f.loc(n), f"`{name}` may be read here before it is bound")


def run(p: Project, tier: str) -> Report:
    rep = Report("C19", "no reference to a missing name, attribute or argument; every local bound before it is read; no container changed while it is iterated; "
                        "constant indices within bounds; conversions of text to numbers guarded")
    g = Guards(p)
    mypy_rule(p, rep)
    unbound_rule(p, rep)
    iterated_rule(p, g, rep)
    index_rule(p, g, rep)
    number_rule(p, g, rep)
    lookup_rule(p, g, rep)
    rep.count("expressions_typed", sum(len(t) for t in p._types.values()))
    rep.need("functions_checked_for_unbound_variables", 600)
    rep.need("loops", 200)
    rep.need("constant_indices", 40)
    rep.assumptions = ["the types inferred by mypy are those of the run (values typed Any are unchecked)", "an enum-typed option holds one of its members"]
    return rep
