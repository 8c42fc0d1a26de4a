"""The constants of the code under check: candidates for special cases in it.

Read from pycep's current source on every run, so that a text or a number the code
singles out is among the values the harnesses put into their inputs."""
from __future__ import annotations

import ast
import functools
import os
import re
import sys

IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")


_FOLD = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.FloorDiv: lambda a, b: a // b,
         ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b, ast.Pow: lambda a, b: a ** b, ast.BitOr: lambda a, b: a | b}


def _fold(n):
    """Value of an expression of constants, or None."""
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.BinOp) and type(n.op) in _FOLD:
        a, b = _fold(n.left), _fold(n.right)
        if a is None or b is None or isinstance(b, int) and abs(b) > 1100 and type(n.op) is not ast.Sub:
            return None
        try:
            return _FOLD[type(n.op)](a, b)
        except Exception:
            return None
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("chr", "len", "ord") and len(n.args) == 1:
        a = _fold(n.args[0])
        try:
            return None if a is None else {"chr": chr, "len": len, "ord": ord}[n.func.id](a)
        except Exception:
            return None
    return None


def samples(pattern):
    """A few texts a regular expression of the code matches: shortest, longer, other branches."""
    import warnings
    from re import _constants as C, _parser

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            tree = _parser.parse(pattern)
        except Exception:
            return set()

    def one_of(items, k):
        neg, cs = False, []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                cs.append(chr(av))
            elif op is C.RANGE:
                cs += [chr(av[0]), chr(av[1])]
            elif op is C.CATEGORY:
                cs += {C.CATEGORY_DIGIT: ["7", "0"], C.CATEGORY_SPACE: [" ", "\t"], C.CATEGORY_WORD: ["q", "_"], C.CATEGORY_NOT_DIGIT: ["q"], C.CATEGORY_NOT_SPACE: ["q"], C.CATEGORY_NOT_WORD: ["-"]}.get(av, [])
        if neg:
            cs = [c for c in "qQ7-. " if c not in cs]
        return cs[-1 if k else 0] if cs else ""

    def gen(seq, k, groups):
        out = ""
        for op, av in seq:
            if op is C.LITERAL:
                out += chr(av)
            elif op is C.NOT_LITERAL:
                out += "q" if av != ord("q") else "p"
            elif op is C.ANY:
                out += "q"
            elif op is C.IN:
                out += one_of(av, k)
            elif op is C.BRANCH:
                bs = av[1]
                out += gen(bs[-1 if k else 0], k, groups)
            elif op is C.SUBPATTERN:
                t = gen(av[3], k, groups)
                groups[av[0]] = t
                out += t
            elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
                lo, hi, sub = av
                n = lo if k == 2 else min(max(lo, 1) + (k == 1), int(hi))
                out += "".join(gen(sub, k, groups) for _ in range(min(n, 80)))
            elif op is C.ATOMIC_GROUP:
                out += gen(av, k, groups)
            elif op is C.GROUPREF:
                out += groups.get(av, "")
        return out

    return {t for k in (0, 1, 2) for t in (gen(tree, k, {}),) if 0 < len(t) <= 120}


@functools.lru_cache(maxsize=None)
def _scan(root):
    words, texts, sizes = set(), set(), {0, 1, 2}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            if f.endswith(".lark"):
                s = open(p, encoding="utf-8").read()
                for m in re.finditer(r'"((?:[^"\\\n]|\\.)+)"', s):
                    texts.add(m.group(1))
                for m in re.finditer(r"\{(\d+)?(?:,(\d+)?)?\}|~\s*(\d+)(?:\.\.(\d+))?", s):
                    sizes.update(int(g) for g in m.groups() if g and int(g) <= 1100)
                continue
            if not f.endswith(".py") or os.sep + "typing" in p:
                continue
            tree = ast.parse(open(p, encoding="utf-8").read())
            skip = set()
            for n in ast.walk(tree):
                if isinstance(n, (ast.Raise,)):
                    skip.update(map(id, ast.walk(n)))
                elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    skip.add(id(n.value))
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for a in [*n.args.args, *n.args.kwonlyargs, *n.args.posonlyargs]:
                        if a.annotation:
                            skip.update(map(id, ast.walk(a.annotation)))
                    if n.returns:
                        skip.update(map(id, ast.walk(n.returns)))
                elif isinstance(n, ast.AnnAssign):
                    skip.update(map(id, ast.walk(n.annotation)))
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    skip.update(map(id, ast.walk(n)))
            for n in ast.walk(tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("re", "regex"):
                    for v in map(_fold, [*n.args, *(k.value for k in n.keywords)]):
                        if type(v) is str:
                            texts |= samples(v)
                if id(n) in skip:
                    continue
                v = n.value if isinstance(n, ast.Constant) else _fold(n)
                if type(v) is str and 0 < len(v) <= 80:
                    texts.add(v)
                    sizes.update(int(g) for m in re.finditer(r"\{(\d+)?,?(\d+)?\}", v) for g in m.groups() if g and int(g) <= 1100)
                elif type(v) is bytes and 0 < len(v) <= 80:
                    texts.add(v.decode("latin-1"))
                elif type(v) is int and 0 <= abs(v) <= 1100:
                    sizes.add(abs(v))
                elif type(v) is float and 0 <= v <= 1100:
                    sizes.add(int(v))
    for t in texts:
        words.update(m for m in IDENT.findall(t) if len(m) <= 40)
    lits = {t for t in texts if "\n" not in t and "\r" not in t and all(32 <= ord(c) < 127 for c in t)}
    return tuple(sorted(words)), tuple(sorted(lits)), tuple(sorted(sizes))


def _root():
    import pycep

    return os.path.dirname(os.path.abspath(pycep.__file__))


def words():
    """Every identifier-like part of a string constant or grammar keyword."""
    return _scan(_root())[0]


def literals():
    """Every one-line printable string constant and grammar text."""
    return _scan(_root())[1]


def sizes(limit=1100):
    """Every small integer constant."""
    return tuple(n for n in _scan(_root())[2] if n <= limit)


if __name__ == "__main__":
    print(words(), literals(), sizes(), file=sys.stdout)
