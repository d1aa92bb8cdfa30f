"""Structure of regular expressions: what can stand at the edges of a match, and whether a guard keeps it from being the inside of a longer identifier."""
from __future__ import annotations

import re
import re._constants as C  # type: ignore
import re._parser as P  # type: ignore
from typing import Any, Callable, Optional

WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
ALL = {chr(i) for i in range(128)}


def parse(pattern: str, flags: int = 0) -> Any:
    return P.parse(pattern, flags)


def charset(op: Any, av: Any) -> set[str]:
    if op is C.LITERAL:
        return {chr(av)}
    if op is C.NOT_LITERAL:
        return ALL - {chr(av)}
    if op is C.ANY:
        return ALL - {"\n"}
    if op is C.IN:
        s: set[str] = set()
        neg = False
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                s.add(chr(a))
            elif o is C.RANGE:
                s |= {chr(c) for c in range(a[0], min(a[1], 127) + 1)}
            elif o is C.CATEGORY:
                s |= category(a)
        return ALL - s if neg else s
    if op is C.CATEGORY:
        return category(av)
    return set(ALL)


def category(a: Any) -> set[str]:
    n = str(a)
    base = WORD if "WORD" in n else set("0123456789") if "DIGIT" in n else set(" \t\n\r\f\v")
    return ALL - base if "NOT" in n else set(base)


CHARS = (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN, C.CATEGORY)
REPEATS = tuple(x for x in (C.MAX_REPEAT, C.MIN_REPEAT, getattr(C, "POSSESSIVE_REPEAT", None)) if x is not None)


def only_char(items: Any) -> Optional[set[str]]:
    """the set of an expression of exactly one character"""
    items = list(items)
    if len(items) != 1:
        return None
    op, av = items[0]
    if op in CHARS:
        return charset(op, av)
    if op is C.BRANCH:
        r: set[str] = set()
        for b in av[1]:
            s = only_char(b)
            if s is None:
                return None
            r |= s
        return r
    if op is C.SUBPATTERN:
        return only_char(av[3])
    return None


def first_set(items: Any, left_to_right: bool = True) -> tuple[set[str], bool]:
    """characters which can start (end) a match; whether it can match the empty text in the middle of a word"""
    r: set[str] = set()
    for op, av in (list(items) if left_to_right else list(reversed(list(items)))):
        if op in CHARS:
            return r | charset(op, av), False
        if op is C.AT:
            if av in (C.AT_NON_BOUNDARY,):
                continue
            return r, False  # an anchor or a boundary: not the middle of a word
        if op in REPEATS:
            s, e = first_set(av[2], left_to_right)
            r |= s
            if av[0] > 0 and not e:
                return r, False
        elif op is C.SUBPATTERN:
            s, e = first_set(av[3], left_to_right)
            r |= s
            if not e:
                return r, False
        elif op is C.BRANCH:
            any_empty = False
            for b in av[1]:
                s, e = first_set(b, left_to_right)
                r |= s
                any_empty |= e
            if not any_empty:
                return r, False
        elif op in (C.ASSERT, C.ASSERT_NOT):
            continue
        else:
            return set(ALL), True
    return r, True


def edge(items: Any, left: bool, keeps: Callable[[Any], bool] = lambda group: False) -> tuple[Optional[str], bool, bool]:
    """(an identifier character which can stand unguarded at this edge of a match, can the expression match nothing, is it guarded)"""
    seq = list(items) if left else list(reversed(list(items)))
    for i, (op, av) in enumerate(seq):
        if op is C.AT:
            if av is C.AT_NON_BOUNDARY:
                continue
            return None, False, True
        if op in (C.ASSERT_NOT, C.ASSERT):
            d, sub = av
            if (d < 0) != left:
                continue
            if op is C.ASSERT_NOT:
                s = only_char(sub)
                if s is not None and WORD <= s:
                    return None, False, True
            else:
                s, e = first_set(sub, left_to_right=not left)
                if not e and not (s & WORD):
                    return None, False, True
            continue
        if op in CHARS:
            s = charset(op, av) & WORD
            return (min(s) if s else None), False, False
        if op in REPEATS:
            b, n, g = edge(av[2], left, keeps)
            if b:
                return b, False, False
            if av[0] > 0 and not n:
                return None, False, g
            continue
        if op is C.SUBPATTERN:
            if av[0] is not None and keeps(av[0]):
                rest = seq[i + 1:]
                after, _ = first_set(rest if left else list(reversed(rest)), left_to_right=left)
                if not (after & WORD):
                    return None, False, True  # the whole identifier is reproduced
            b, n, g = edge(av[3], left, keeps)
            if b:
                return b, False, False
            if not n:
                return None, False, g
            continue
        if op is C.BRANCH:
            anyn = False
            for br in av[1]:
                b, n, g = edge(br, left, keeps)
                if b:
                    return b, False, False
                anyn |= n
            if not anyn:
                return None, False, False
            continue
        if op is C.GROUPREF:
            return "?", False, False
        return None, False, False
    return None, True, False


def edge_words(items: Any, left: bool) -> set[str]:
    """the literal identifiers which stand at this edge"""
    out: list[str] = []
    for op, av in (list(items) if left else list(reversed(list(items)))):
        if op in (C.AT, C.ASSERT, C.ASSERT_NOT) and not out:
            continue
        if op is C.SUBPATTERN and not out:
            return edge_words(av[3], left)
        if op is C.BRANCH and not out:
            return {w for b in av[1] for w in edge_words(b, left)}
        if op in REPEATS and not out and av[0] == 0:
            continue
        if op is C.LITERAL and chr(av) in WORD:
            out.append(chr(av))
        else:
            break
    return {"".join(out if left else reversed(out))}


def lone_any(items: Any) -> bool:
    """a `.` for exactly one character"""
    for op, av in items:
        if op is C.ANY:
            return True
        if op in REPEATS:
            if av[1] == 1 and lone_any(av[2]):
                return True
        elif op is C.SUBPATTERN:
            if lone_any(av[3]):
                return True
        elif op is C.BRANCH:
            if any(lone_any(b) for b in av[1]):
                return True
        elif op in (C.ASSERT, C.ASSERT_NOT):
            if lone_any(av[1]):
                return True
    return False


def witness(items: Any, groups: str = "X") -> Optional[str]:
    """a short text which the expression matches, built from its structure (groups of anything: an identifier)"""
    out = []
    for op, av in items:
        if op is C.LITERAL:
            out.append(chr(av))
        elif op in CHARS:
            s = charset(op, av)
            out.append("X" if "X" in s else "1" if "1" in s else " " if " " in s else min(s) if s else "")
        elif op in REPEATS:
            w = witness(av[2], groups)
            if w is None:
                return None
            n = av[0]
            if n == 0 and len(av[2]) == 1 and av[2][0][0] is C.ANY:
                n = 1  # the inside of a template argument list
            out.append(w * n)
        elif op is C.SUBPATTERN:
            w = witness(av[3], groups)
            if w is None:
                return None
            out.append(w)
        elif op is C.BRANCH:
            w = witness(av[1][0], groups)
            if w is None:
                return None
            out.append(w)
        elif op in (C.AT, C.ASSERT, C.ASSERT_NOT):
            continue
        else:
            return None
    return "".join(out)


def template_edge(by_what: str, left: bool) -> Optional[int]:
    """the group reproduced at this edge of the replacement text"""
    m = re.match(r"\\(\d)|\\g<(\d+)>", by_what) if left else re.search(r"(?:\\(\d)|\\g<(\d+)>)$", by_what)
    return int(m.group(1) or m.group(2)) if m else None
