"""C20: tables which describe the same domain cover the same cases and agree.

The domains are finite (C++ numeric types, numpy type letters, C++ operators): tables and the pure functions which look into them are folded to
constants at every element of the domain (vlib.ceval, from the syntax tree), and the relations between the folded tables are compared with each
other and with the documented correspondences (numpy type codes, dlpack categories, Python data model)."""
from __future__ import annotations

import ast
import keyword
import re
from typing import Any, Callable, Optional

from vlib.ceval import Bound, CEval, ClsVal, EnumVal, Raised, Rec, Unknown
from vlib.project import Func, Project
from vlib.report import Report

TECHNIQUE = "interprocedural constant propagation of every element of the finite domains through the tables and lookup functions of the source, plus relational checks between the folded tables (and the C++ tables inside the code templates)"
LEVEL_NOTE = "Only the built-in tables are decided; replacements and types added by the user at run time are not. C++ tables inside templates are read as text."

# documented correspondences: https://numpy.org/doc/stable/reference/arrays.scalars.html (type codes), dlpack categories
LETTER = {"byte": "B", "uint8_t": "B", "int8_t": "b", "uint16_t": "H", "int16_t": "h", "uint32_t": "I", "int32_t": "i", "np_uint_l": "L", "np_int_l": "l",
          "float": "f", "double": "d", "long double": "g", "long long": "q", "unsigned long long": "Q"}
CODE = {"B": ("UInt", 1), "b": ("Int", 1), "H": ("UInt", 2), "h": ("Int", 2), "I": ("UInt", 4), "i": ("Int", 4), "L": ("UInt", 8), "l": ("Int", 8), "q": ("Int", 8), "Q": ("UInt", 8),
        "f": ("Float", 4), "d": ("Float", 8), "g": ("Float", 16)}
NPNAME = {"B": "uint8", "b": "int8", "H": "uint16", "h": "int16", "I": "uint32", "i": "int32", "L": "uint64", "l": "int64", "Q": "uint64", "q": "int64", "f": "float32", "d": "float64",
          "g": "longdouble"}
INTS = ["int", "unsigned int", "signed int", "long", "unsigned long", "signed long", "long long", "unsigned long long", "signed long long", "short", "unsigned short", "signed short",
        "uint8_t", "int8_t", "uint16_t", "int16_t", "uint32_t", "int32_t", "uint64_t", "int64_t", "size_t", "ssize_t", "std::size_t", "byte", "np_uint_l", "np_int_l"]
FLOATS = ["float", "double", "long double"]
UNSIGNED = re.compile(r"^u|unsigned|^(std::)?size_t$|^byte$|^np_uint")
BINARY = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "%": "__mod__", "&": "__and__", "|": "__or__", "^": "__xor__", "<<": "__lshift__", ">>": "__rshift__",
          "[]": "__getitem__"}
INPLACE = {k + "=": "__i" + v[2:] for k, v in BINARY.items() if k != "[]"}
COMPARE = {"<": "__lt__", "<=": "__le__", "==": "__eq__", "!=": "__ne__", ">": "__gt__", ">=": "__ge__"}
UNARY = {"-": "__neg__", "+": "__pos__", "~": "__invert__", "bool": "__bool__"}
NO_EQUIVALENT = ["++", "--", "=", "&&", "||", "!", ",", "->", "->*", "new", "delete"]


def category(t: str) -> str:
    return "Float" if t in FLOATS else "UInt" if UNSIGNED.search(t) else "Int"


class Rule:
    def __init__(self, p: Project, rep: Report):
        self.p, self.rep = p, rep

    def fn(self, name: str) -> Optional[Func]:
        fs = [f for f in self.p.funcs.values() if f.name == name and f.parent is None]
        return fs[0] if len(fs) == 1 else None

    def fold(self, what: str, run: Callable[[CEval], Any]) -> Any:
        """the constant, Raised, or Unknown (class)"""
        try:
            self.rep.count("folded_results")
            return run(CEval(self.p))
        except Raised as r:
            return r
        except Unknown as u:
            self.rep.count("results_not_constant")
            n = f"not a constant: {what} ({u})"
            if n not in self.rep.notes and len(self.rep.notes) < 20:
                self.rep.notes.append(n)
            return Unknown

    def call(self, f: Optional[Func], *a: Any, **k: Any) -> Any:
        if f is None:
            return Unknown
        return self.fold(f"{f.name}{a}"[:80], lambda c: c.call(f, *a, **k))

    def add(self, rule: str, f: Any, construct: str, msg: str) -> None:
        loc = f.loc() if isinstance(f, Func) else str(f)
        self.rep.add(rule, construct, loc, msg)

    # -- buffers
    def options(self, **fields: Any) -> Optional[Rec]:
        c = [k for k in self.p.classes.values() if k.name == "LitgenOptions"]
        return Rec(c[0].full, **fields) if c else None

    def buffers(self) -> None:
        rep = self.rep
        opts = self.options()
        chk = self.fn("check_options_consistency")
        if opts is None or chk is None:
            return
        authorized = []
        for t in sorted(set(INTS + FLOATS + list(LETTER) + ["bool", "char", "unsigned char", "void", "std::byte", "Foo"])):
            r = self.fold(f"check_options_consistency with {t!r}", lambda c: c.call(chk, self.options(fn_params_buffer_types=t)))
            if r is None:
                authorized.append(t)
        default = self.fold("default fn_params_buffer_types", lambda c: c.call(self.fn("_fn_params_buffer_types_list"), opts))
        if isinstance(default, list):
            for t in default:
                rep.count("buffer_types_by_default")
                if t not in authorized:
                    self.add("buffers", chk, f"default buffer type {t}", f"'{t}' is a buffer type by default, but check_options_consistency refuses it")
        to_letter, to_cpp = self.fn("cpp_type_to_py_array_type"), self.fn("py_array_type_to_cpp_type")
        code, code8 = self.fn("nanobind_cpp_type_to_dtype_code"), self.fn("nanobind_cpp_type_to_dtype_code_as_uint8")
        for t in authorized:
            rep.count("buffer_types_authorized")
            want = LETTER.get(t)
            for spelling in (t, "const " + t, t + " *", t + "*", "const " + t + " *"):
                got = self.call(to_letter, spelling)
                if got is Unknown:
                    continue
                if isinstance(got, Raised):
                    self.add("letter", to_letter, f"{t}", f"'{t}' is accepted as a buffer type, but {to_letter.name}({spelling!r}) ends with {got.name}")
                elif got != want and not (t in ("int64_t", "uint64_t") and CODE.get(got) == (category(t), 8)):
                    self.add("letter", to_letter, f"{t}", f"buffers of '{spelling}' are dispatched to numpy type code {got!r} instead of {want!r}")
            back = self.call(to_cpp, want) if want else Unknown
            if want and back is not Unknown and LETTER.get(back if isinstance(back, str) else "") != want:
                self.add("letter", to_cpp, f"{t} (back)", f"numpy type code {want!r} is cast to {back if isinstance(back, str) else 'nothing'} instead of {t}")
            for g in (code, code8):
                got = self.call(g, t)
                if got is Unknown:
                    continue
                if isinstance(got, Raised):
                    self.add("dtype", g, f"{g.name}: {t}", f"'{t}' is accepted as a buffer type, but {g.name} ends with {got.name}")
                elif not isinstance(got, str) or re.findall(r"\b(U?Int|Float|Bfloat|Complex|Bool)\b", got) != [category(t)]:
                    self.add("dtype", g, f"{g.name}: {t}", f"{g.name}({t!r}) is {got!r}: expected category {category(t)}")
        # elsewhere: refused or right
        for t in INTS + FLOATS + ["bool", "char", "Foo", "Foouint8_t", "uint8_tFoo", "int8"]:
            rep.count("types_looked_up")
            got = self.call(to_letter, t)
            if isinstance(got, str) and (t not in INTS + FLOATS or got not in CODE or CODE[got][0] != category(t) or t in LETTER and got != LETTER[t]):
                self.add("letter", to_letter, f"{t}", f"'{t}' is given the numpy type code {got!r}")
            for g in (code, code8):
                got = self.call(g, t)
                if isinstance(got, str) and (t not in INTS + FLOATS or re.findall(r"\b(U?Int|Float|Bfloat|Complex|Bool)\b", got) != [category(t)]):
                    self.add("dtype", g, f"{g.name}: {t}", f"{g.name}({t!r}) is {got!r}" + (f": expected {category(t)}" if t in INTS + FLOATS else ""))
        for letter in CODE:
            got = self.call(to_cpp, letter)
            if isinstance(got, str):
                rep.count("letters_looked_up")
                if LETTER.get(got) != letter:
                    self.add("letter", to_cpp, f"letter {letter}", f"numpy type code {letter!r} is cast to '{got}'")
        letters = self.call(self.fn("py_array_types"))
        if isinstance(letters, list):
            for x in letters:
                if isinstance(self.call(to_cpp, x), Raised):
                    self.add("letter", to_cpp, f"letter {x}", f"{x!r} is listed as a type code, but has no C++ type")

    def cpp_tables(self) -> None:
        """tables written in C++ inside the templates"""
        rep = self.rep
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if not (isinstance(n, ast.Constant) and isinstance(n.value, str)) or "\n" not in n.value:
                    continue
                s, loc = n.value, f"{m.rel}:{n.lineno}"
                rows = re.findall(r"\{\s*\w+\((U?Int|Float)\)\s*,\s*(\d+)\s*,\s*'(.)'\s*\}", s)
                for c, size, letter in rows:
                    rep.count("rows_of_cpp_tables")
                    if CODE.get(letter) != (c, int(size)):
                        rep.add("cpp-table", f"{m.name}: {c} {size} {letter}", loc, f"{c} of {size} bytes is mapped to numpy type code {letter!r}, which is {CODE.get(letter)}")
                if rows:
                    if len({(c, z) for c, z, _ in rows}) != len(rows):
                        rep.add("cpp-table", f"{m.name}: duplicate row", loc, "two rows of the table have the same key")
                    missing = sorted({CODE[k] for k in "BbHhIiLlfdg"} - {(c, int(z)) for c, z, _ in rows})
                    if missing:
                        rep.add("cpp-table", f"{m.name}: missing rows", loc, f"no row for {missing}: such buffers are always refused")
                    for size in re.findall(r"std::array<\s*std::tuple<[^;]*?>\s*,\s*(\d+)\s*>", s):
                        rep.count("sizes_of_cpp_tables")
                        if int(size) != len(rows):
                            rep.add("cpp-table", f"{m.name}: size", loc, f"the array is declared with {size} entries and has {len(rows)}")
                for a in re.finditer(r"using\s+np_(u?)int_l\s*=\s*(\w+)\s*;", s):
                    rep.count("aliases_of_cpp_tables")
                    head = s[:a.start()]
                    win = "_WIN32" in head and "#else" not in head.rsplit("_WIN32", 1)[1] and "#ifdef" in head
                    notwin = "_WIN32" in head and "#ifndef" in head
                    want = f"{a.group(1)}int{32 if win != notwin and '_WIN32' in head and (win or notwin) and not notwin else 64}_t"
                    if a.group(2) != want:
                        rep.add("cpp-table", f"{m.name}: np_{a.group(1)}int_l {'win32' if win else ''}".rstrip(), loc, f"np_{a.group(1)}int_l is {a.group(2)} instead of {want}")
                cases: dict[str, str] = {}
                for x in re.finditer(r"((?:case\s+'.'\s*:\s*)+)return\s+\"(\w+)\"", s):
                    for letter in re.findall(r"'(.)'", x.group(1)):
                        rep.count("cases_of_cpp_tables")
                        cases[letter] = x.group(2)
                        if letter in NPNAME and NPNAME[letter] != x.group(2):
                            rep.add("cpp-table", f"{m.name}: case {letter}", loc, f"numpy type code {letter!r} is called \"{x.group(2)}\" ({NPNAME[letter]})")
                if len(cases) >= 4 and set(cases) & set(CODE):
                    for letter in sorted(set("BbHhIiLlfdg") - set(cases)):
                        rep.add("cpp-table", f"{m.name}: case {letter}", loc, f"no case for the numpy type code {letter!r}")

    def dispatch(self) -> None:
        """the templated form goes through the whole list of buffer types"""
        for f in self.p.funcs.values():
            if isinstance(f.node, ast.Lambda):
                continue
            for n in self.p.own_nodes(f):
                if not isinstance(n, ast.For):
                    continue
                it = n.iter
                direct = self._list_of_types(f, it)
                if direct is None:
                    continue
                self.rep.count("loops_over_buffer_types")
                if not direct:
                    self.add("dispatch", f, f"{f.qual}: slice", "a part of the buffer types is left out of the loop")
                names = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                for x in ast.walk(n):
                    if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(x.value)):
                        names |= {t.id for t in x.targets if isinstance(t, ast.Name)}
                if any(isinstance(x, (ast.AugAssign,)) and isinstance(x.op, ast.Add) for x in ast.walk(n)) or any(
                        isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend") for x in ast.walk(n)):
                    for c in ast.walk(n):
                        if isinstance(c, ast.If) and any(isinstance(y, (ast.Continue, ast.Break)) for b in c.body + c.orelse for y in ast.walk(b)) and any(
                                isinstance(y, ast.Name) and y.id in names for y in ast.walk(c.test)):
                            self.add("dispatch", f, f"{f.qual}: skip", f"some buffer types are skipped ({ast.unparse(c.test)[:80]}): no branch is generated for them")

    def _list_of_types(self, f: Func, it: ast.expr) -> Optional[bool]:
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "list", "reversed", "sorted") and it.args:
            return self._list_of_types(f, it.args[0])
        if isinstance(it, ast.Subscript):
            r = self._list_of_types(f, it.value)
            return False if r is not None else None
        if isinstance(it, ast.Name):
            src = [x.value for x in self.p.own_nodes(f) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == it.id for t in x.targets)]
            return self._list_of_types(f, src[0]) if len(src) == 1 and not isinstance(src[0], ast.Name) else None
        if isinstance(it, ast.ListComp) and len(it.generators) == 1:
            r = self._list_of_types(f, it.generators[0].iter)
            return None if r is None else r and not it.generators[0].ifs
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "_fn_params_buffer_types_list":
            return True
        return None

    def words(self) -> None:
        """adapters look at all the words of a type (the first word of 'long double' is another type)"""
        for f in self.p.funcs.values():
            if isinstance(f.node, ast.Lambda) or ".adapt_function_params" not in f.module.name:
                continue
            for n in self.p.own_nodes(f):
                if isinstance(n, ast.Attribute) and n.attr == "typenames" and isinstance(n.ctx, ast.Load):
                    self.rep.count("reads_of_type_words")
                    up = self.p.parent_of.get(n)
                    if isinstance(up, ast.Subscript) and isinstance(up.slice, (ast.Constant, ast.UnaryOp)):
                        use = self.p.parent_of.get(up)
                        if isinstance(use, ast.Compare) or any(isinstance(x, ast.Compare) and "len" in ast.unparse(x) and "typenames" in ast.unparse(x) for x in self.p.own_nodes(f)):
                            continue
                        self.add("words", f, f"{f.qual}: {ast.unparse(up)}", f"{ast.unparse(up)} is only one word of the type: 'long double' is handled as 'long', 'unsigned long' as 'unsigned'")

    # -- numeric types, immutables, boxes
    def numeric(self) -> None:
        rep = self.rep
        std = self.fn("standard_type_replacements")
        table = self.call(std)
        syn: list[tuple[str, str, Any]] = []
        for m in self.p.modules.values():
            for st in m.tree.body:
                if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                    for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                        if isinstance(t, ast.Name) and "SYNONYMS" in t.id:
                            v = self.fold(t.id, lambda c: c.global_value(m, t.id))
                            for r in v if isinstance(v, list) else []:
                                if isinstance(r, Rec) and {"cpp_type", "python_type"} <= set(r.fields):
                                    syn.append((r.fields["cpp_type"], r.fields["python_type"], f"{m.rel}:{st.lineno}"))
        seen: dict[str, str] = {}
        for cpp, py, loc in syn:
            rep.count("synonyms")
            want = "float" if cpp in FLOATS else "int" if cpp in INTS else None
            if want and py != want or seen.setdefault(cpp, py) != py:
                rep.add("synonym", cpp, loc, f"'{cpp}' is declared as a synonym of Python '{py}'")
        declared = dict((c, p) for c, p, _ in syn)
        member = self.fold("member_numeric_c_array_types", lambda c: c.call(self.fn("_member_numeric_c_array_types_list"), self.options()))
        for t in sorted(set(declared) | set(x for x in (member if isinstance(member, list) else []) if x in INTS + FLOATS)):
            if not isinstance(table, Rec):
                break
            want = declared.get(t, "float" if t in FLOATS else "int")
            for pat, res in (("{}", "{}"), ("const {} &", "{}"), ("{} *", "{}"), ("std::vector<{}>", "List[{}]"), ("std::pair<{}, bool>", "Tuple[{}, bool]")):
                got = self.fold("type replacement of " + t, lambda c: c.apply(c.attr(table, "apply"), [pat.format(t)], {}))
                if isinstance(got, str):
                    rep.count("types_translated")
                    if re.sub(r"\s+", "", got) != re.sub(r"\s+", "", res.format(want)):
                        self.add("type", std, t, f"'{t}' is declared as a numeric type, and '{pat.format(t)}' is translated to '{got.strip()}' in stubs instead of '{res.format(want)}'")
        # boxes
        imm, dflt = self.fn("is_cpp_type_immutable_for_python"), self.fn("cpp_type_default_python_value")
        name, reg, struct = self.fn("boxed_type_name"), self.fn("registered_boxed_type_name"), self.fn("boxed_type_cpp_struct_code")
        boxes: dict[str, list[str]] = {}
        for t in sorted(set(INTS + FLOATS + list(declared) + ["bool", "string", "std::string"])):
            i = self.call(imm, t)
            if i is not True:
                if i is False and t in declared:
                    self.add("boxed", imm, t, f"'{t}' is declared as a numeric type but not as immutable in Python")
                continue
            rep.count("immutable_types")
            d = self.call(dflt, t)
            want = {"Float": r"0?\.0*f?|0\.?", "Int": "0", "UInt": "0"}[category(t)] if t in INTS + FLOATS else "false" if t == "bool" else '""'
            if d is None or isinstance(d, Raised):
                self.add("boxed", dflt, t, f"'{t}' is immutable in Python, but has no default value: its boxed type cannot be generated")
            elif isinstance(d, str) and not re.fullmatch(want, d):
                self.add("boxed", dflt, t, f"the default value of '{t}' is {d}")
            ctx = Rec(None, encountered_cpp_boxed_types=set())
            n = self.fold(f"boxed type of {t}", lambda c: c.call(reg, ctx, t) if reg else c.call(name, t))
            if isinstance(n, Raised):
                self.add("boxed", name, t, f"'{t}' is immutable in Python, but boxing it ends with {n.name}")
            elif isinstance(n, str):
                rep.count("boxed_types")
                if not n.isidentifier() or keyword.iskeyword(n):
                    self.add("boxed", name, t, f"the boxed type of '{t}' is named '{n}', which is not an identifier")
                for k in sorted(ctx.fields["encountered_cpp_boxed_types"]) or [t]:
                    if k not in boxes.setdefault(n, []):
                        boxes[n].append(k)
                    code = self.fold(f"boxed struct of {t}", lambda c: c.call(struct, k, "    "))
                    if isinstance(code, Raised):
                        self.add("boxed", struct, t, f"the struct of the boxed type of '{t}' cannot be generated ({code.name})")
                    elif isinstance(code, str):
                        rep.count("boxed_structs")
                        if not re.search(rf"struct\s+{re.escape(n)}\b", code) or not re.search(rf"\b{re.escape(k)}\s+value\s*;", code) \
                                or not re.search(rf"\b{re.escape(n)}\(\s*{re.escape(k)}\s+\w+\s*=\s*(?:{want})\)", code):
                            self.add("boxed", struct, t, f"parameters of type '{t}' become '{n}', but the struct generated for it is:\n{code.strip()[:300]}")
                        if ("std::to_string(" in code) == (k in ("string", "std::string")):
                            self.add("boxed", struct, t, f"__repr__ of the boxed '{k}' " + ("calls std::to_string on a string" if "std::to_string(" in code else "adds a number to a string"))
        for n, ts in sorted(boxes.items()):
            if len(ts) > 1:
                self.add("boxed", name, f"{n}", f"{', '.join(ts)} are registered apart and give the same boxed type '{n}': the struct is generated {len(ts)} times")

    # -- operators
    def operator(self, op: str, nb: int, name: str = "Foo") -> Rec:
        def refuse(*a: Any) -> None:
            raise Raised("refused")
        d = Rec(None, is_operator=lambda: True, is_method=lambda: True, operator_name=lambda: op, raise_exception=refuse, function_name="operator" + op,
                parameter_list=Rec(None, parameters=[f"p{i}" for i in range(nb)]), return_type=Rec(None, typenames=["auto"]), emit_warning=lambda *a: None,
                is_const=lambda: True)
        return d

    def operators(self) -> None:
        rep = self.rep
        conv, check = self.fn("cpp_to_python_operator_name"), self.fn("raise_if_unsupported_operator")
        if conv is None:
            return
        got: dict[tuple[str, int], Any] = {}
        for op in sorted(set(BINARY) | set(INPLACE) | set(COMPARE) | set(UNARY) | {"()", "<=>"} | set(NO_EQUIVALENT)):
            for nb in (0, 1, 2):
                r = self.call(conv, self.operator(op, nb))
                ok = self.call(check, self.operator(op, nb))
                got[op, nb] = r
                if r is Unknown:
                    continue
                rep.count("operators_and_arities")
                want: Optional[str] = None
                if op == "()":
                    want = "__call__"
                elif nb == 0:
                    want = UNARY.get(op)
                elif nb == 1:
                    want = {**BINARY, **INPLACE, **COMPARE, "<=>": "<=>"}.get(op)
                what = f"operator{op} with {nb} parameter(s)"
                if isinstance(r, str) and r != want:
                    self.add("operator", conv, what, f"{what} becomes {r}" + (f" instead of {want}" if want else ", but has no Python equivalent"))
                if isinstance(r, Raised) and r.name != "refused":
                    self.add("operator", conv, what, f"{what}: the conversion dies with {r.name}" + (", although it passed the check of unsupported operators" if ok is None else ""))
                if ok is None and not isinstance(r, str):
                    self.add("operator", conv, what, f"{what} passes the check of unsupported operators, but cannot be converted")
                if isinstance(ok, Raised) and isinstance(r, str):
                    self.add("operator", check or conv, what, f"{what} can be converted, but is refused by the check of unsupported operators")
        done = {op for (op, nb), r in got.items() if nb == 1 and isinstance(r, str)}
        unknown = {op for (op, nb), r in got.items() if nb == 1 and r is Unknown}
        for group, what in ((COMPARE, "comparison"), ):
            for op in sorted(set(group) - done - unknown):
                if done & set(group):
                    self.add("operator", conv, f"{what} operator{op}", f"operator{op} is not converted, while other {what} operators are")
        for op in sorted(set(BINARY) - {"[]"}):
            if (op in done) != (op + "=" in done) and not {op, op + "="} & unknown:
                x, y = (op, op + "=") if op in done else (op + "=", op)
                self.add("operator", conv, f"pair operator{op}", f"operator{x} is converted, and operator{y} is not")
        for op in ("+", "-", "*", "/", "%", "[]", "()"):
            if isinstance(got.get((op, 1)), Raised):
                self.add("operator", conv, f"operator{op}", f"operator{op} is refused although Python has the same operator")
        for op in ("+", "-", "bool"):
            if isinstance(got.get((op, 0)), Raised):
                self.add("operator", conv, f"unary operator{op}", f"unary operator{op} is refused although Python has the same operator")
        self.spaceship(conv)

    def spaceship(self, conv: Func) -> None:
        f = self.fn("cpp_split_spaceship_operator")
        if f is None:
            return
        src = self.operator("<=>", 1)
        src.fields["function_name"] = "operator<=>"
        af = Rec(None, cpp_adapted_function=src, is_method=lambda: True, cpp_adapter_code=None, lambda_to_call=None)
        rs = self.call(f, af)
        if not isinstance(rs, list):
            return
        ops = []
        for r in rs:
            if not isinstance(r, Rec) or not isinstance(r.fields.get("cpp_adapter_code"), str):
                return
            self.rep.count("comparisons_of_the_spaceship_operator")
            op = str(r.fields["cpp_adapted_function"].fields["function_name"])[len("operator"):]
            ops.append(op)
            code = r.fields["cpp_adapter_code"]
            test = re.search(r"<=>\s*\(\s*other\s*\)\s*(<=|>=|==|!=|<|>)\s*0", code)
            if test is None or test.group(1) != op:
                self.add("spaceship", f, f"operator{op}", f"the comparison published as operator{op} evaluates '{code.strip()[:120]}'")
            lam = r.fields.get("lambda_to_call")
            if not isinstance(lam, str) or not re.search(rf"auto\s+{re.escape(lam)}\s*=", code):
                self.add("spaceship", f, f"operator{op}: lambda", f"operator{op} calls '{lam}', which the generated code does not define")
        if src.fields["function_name"] != "operator<=>" or af.fields["cpp_adapter_code"] is not None:
            self.add("spaceship", f, "original", "the original operator is changed: the comparisons share their data")
        for op in ("<", "<=", "==", ">=", ">"):
            if ops.count(op) != 1:
                self.add("spaceship", f, f"operator{op}", f"operator<=> gives {ops.count(op)} operator{op}")
        for op in ops:
            if op not in COMPARE:
                self.add("spaceship", f, f"operator{op}", f"operator{op} is not a comparison")


def run(p: Project, tier: str) -> Report:
    rep = Report("C20", "tables about the same finite domain (numeric types and type codes, categories, synonyms, boxed forms, operators) are folded to constants for every element: "
                        "they cover the same cases, agree with each other and with the documented correspondences")
    r = Rule(p, rep)
    r.buffers()
    r.cpp_tables()
    r.dispatch()
    r.words()
    r.numeric()
    r.operators()
    rep.sample({"authorised buffer types": rep.counts.get("buffer_types_authorized")})
    rep.assumptions = ["numpy type codes, dlpack categories and the Python data model are as documented", "options are the built-in ones"]
    return rep
