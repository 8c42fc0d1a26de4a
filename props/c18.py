from props import c15, c17
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "all four combinations of text and file for parse and create_tree, with valid, invalid and empty texts; 0..4 delimiters ''' with 1..2 symbolic characters at one place between "
             "them; 19 base texts cut at every position and with a symbolic character inserted at every position (syntax only); "
             "files rewritten between parses; missing files; four default text encodings of the environment",
    "thorough": "as quick with up to 6 delimiters, 3 symbolic characters between them and texts of 3 arbitrary characters",
}
ASSUMPTIONS = ["the text of a file is what Path.read_text returns (line ends as Python's universal newlines give them)",
               "symbolically a file is a Path subclass that returns the text; on the real code it is a file in a scratch directory"]

GOOD = "var x = 1\nresource r 'a/b@1' = {\n  a: k\n}\n"
TEXTS = [c17.plain(b) for b in c17.BASES]


def outcome(r):
    return r.ok, r.err


@harness("selection")
def selection(h):
    """Both or neither of text and file is a TypeError, whatever they contain."""
    f = h.choose("parse", "create_tree")
    ln = h.choose(False, True)
    t = h.choose(None, "", GOOD, "var x", "'''")
    have_file = h.choose(False, True)
    content = h.choose("", GOOD, "var x", "'''", None) if have_file else None
    p = h.parser(add_line_numbers=ln)
    kw = {}
    if t is not None:
        kw["text"] = t
    elif h.choose(False, True):
        kw["text"] = None
    if have_file:
        kw["file_path"] = h.file(content)
    elif h.choose(False, True):
        kw["file_path"] = None
    r = h.run(lambda: getattr(p, f)(**kw))
    both = t is not None and have_file
    neither = t is None and not have_file
    h.check((r.err == "TypeError") == (both or neither), "TypeError exactly for both or neither of text and file")
    if both or neither:
        return
    src = t if t is not None else content
    if src is None:
        h.check(r.err == "FileNotFoundError", "a missing file")
    elif src == "'''":
        h.check(r.err == "ValueError", "unbalanced '''")
    elif src == "var x":
        h.check(not r.ok and r.err not in ("TypeError", "ValueError"), "a syntax error")
    else:
        h.check(r.ok, "a good text")


@harness("file_equals_text")
def file_equals_text(h):
    """A file is parsed like its text, also when that is rejected."""
    t = h.choose(TEXTS)
    i = h.choose(range(0, len(t) + 1, 1 if h.thorough() else 4))
    t = t[:i] + h.choose("", "", h.sym(1, "nocr")) + (t[i:] if h.choose(True, False) else "")
    ln = h.choose(False, True)
    a, b = h.parse(t, add_line_numbers=ln), h.parse_file(h.file(t), add_line_numbers=ln)
    h.check(outcome(a) == outcome(b), "file and text are accepted alike")
    if a.ok:
        h.eq(b.value, a.value, "file and text")


@harness("arbitrary_files")
def arbitrary_files(h):
    s = h.sym(h.choose(0, 1, 2) if not h.thorough() else h.choose(0, 1, 2, 3), "nocr")
    pre, post = h.choose(("", ""), ("var x = ", "\n"), ("var x = '", "'\n"), ("var x = '''", "'''\n"))
    t = pre + s + post
    a, b = h.parse(t), h.parse_file(h.file(t))
    h.check(outcome(a) == outcome(b), "file and text are accepted alike")
    if a.ok:
        h.eq(b.value, a.value, "file and text")
    c, d = h.tree(text=t), h.tree(path=h.file(t, "other.bicep"))
    h.check(outcome(c) == outcome(d), "file and text are accepted alike by create_tree")
    if c.ok:
        h.eq(d.value, c.value, "tree of file and text")


@harness("environment")
def environment(h):
    """What a file means does not depend on the text encoding of the environment: Bicep files are UTF-8."""
    loc = h.choose("ascii", "latin-1", "cp1252", "utf-16")
    s = h.sym(1, "nocr") + h.choose("", "\u00e9")
    t = h.choose("var x = '{}'\n", "// {}\nvar x = 1\n", "param x string = '''{}'''\n", "resource r 'a/b@1' = {\n  name: '{}'\n}\n")
    i = t.index("{}")
    t = t[:i] + s + t[i + 2:]
    a, b = h.parse(t), h.parse_file(h.file(t, "main.bicep", loc))
    h.check(outcome(a) == outcome(b), "file and text are accepted alike")
    if a.ok:
        h.eq(b.value, a.value, "file and text")
    p = h.default_parser(False)
    c, d = h.tree(text=t), h.run(lambda: p.create_tree(file_path=h.file(t, "other.bicep", loc)))
    h.check(outcome(c) == outcome(d), "file and text are accepted alike by create_tree")


@harness("not_utf8")
def not_utf8(h):
    """A file whose bytes are not UTF-8 has no text: it is rejected, wherever they stand."""
    b = h.choose(b"\xff", b"\xc3", b"\xe2\x82", b"\xc0\x80", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xff\xfe", b"\x80")
    t = h.choose("var x = '{}'\n", "// {}\nvar x = 1\n", "param x string = '''{}'''\n", "resource r 'a/b@1' = {\n  name: '{}'\n}\n", "{}var x = 1\n", "var x = 1\n{}", "var x = 1 /* {} */\n", "{}")
    i = t.index("{}")
    p = h.file(t[:i].encode() + b + t[i + 2:].encode())
    a, c = h.parse_file(p), h.tree(path=p)
    h.check(not a.ok, "a file that is not UTF-8 is rejected")
    h.check(not c.ok, "a file that is not UTF-8 is rejected by create_tree")


def quotes(t):
    """Number of ''' from left to right."""
    n, i = 0, 0
    while i + 3 <= len(t):
        if t[i] == "'" and t[i + 1] == "'" and t[i + 2] == "'":
            n, i = n + 1, i + 3
        else:
            i += 1
    return n


@harness("unbalanced")
def unbalanced(h):
    """An odd number of ''' is a ValueError that names the file, whatever else is in the text."""
    n = h.choose(0, 1, 2, 3, 4) if not h.thorough() else h.choose(0, 1, 2, 3, 4, 5, 6)
    t = h.choose("var x = ", "// ", "} ] ")
    j = h.choose(range(n + 1))
    k = h.choose(1, 2) if not h.thorough() or n > 3 else h.choose(1, 2, 3)
    fix = h.choose("", "\n")
    for i in range(n + 1):
        t = t + (h.sym(k, "nocr") if i == j else fix) + ("'''" if i < n else "")
    odd = quotes(t) % 2 == 1
    f, on_file = h.choose(("parse", False), ("parse", True), ("create_tree", True))
    path = h.file(t) if on_file else None
    p = h.default_parser(False)
    if path is None:
        r = h.run(lambda: getattr(p, f)(text=t))
    else:
        r = h.run(lambda: getattr(p, f)(file_path=path))
    if not r.ok:
        h.check((r.err == "ValueError") == odd, "ValueError exactly for an odd number of '''")
        if odd and path is not None:
            h.check(str(path) in r.text, "the file is named")
    else:
        h.check(not odd, "an odd number of ''' is rejected")


@harness("near_quotes")
def near_quotes(h):
    """Other quotes do not count: only ''' does, and no rejected text is reported as unbalanced."""
    t = h.choose("var x = ''\n", "var x = '\\''\n", "var x = '\"\"\"'\n", "var x = '''\n'''\n", "var x = ''''''\n", "var x = ''''a'''\n", "var x = ['', '']\n",
                 "var x = '''a''' // ''\n", "// ''' '''\n", "var x = '${''}'\n")
    r = h.parse(t)
    h.check(r.ok, "balanced quotes are accepted")


@harness("tree_accepts")
def tree_accepts(h):
    """create_tree accepts what parse accepts; what only parse rejects was rejected after the syntax."""
    t = h.choose(TEXTS)
    m = h.choose("cut", "insert", "drop")
    i = h.choose(range(len(t)))
    if m == "cut":
        t = t[:i]
    elif m == "insert":
        c = h.sym(1, "any")
        h.assume(c in "'\n(){}[]@|=!?:.,-+*/<>\\$# ax1_" or h.thorough())
        t = t[:i] + c + t[i:]
    else:
        t = t[:i] + t[i + 1:]
    compare(h, t)


def compare(h, t):
    a, b = h.parse(t), h.tree(text=t)
    if a.ok:
        h.check(b.ok, "create_tree accepts what parse accepts")
    elif b.ok:
        h.check(a.err == "VisitError", "parse accepts the syntax create_tree accepts")
    else:
        h.check(a.err == b.err, "the same error")
    if b.ok:
        h.check(isinstance(b.value, str) and b.value != "", "a rendered tree")


@harness("tree_arbitrary")
def tree_arbitrary(h):
    s = h.sym(h.choose(0, 1, 2) if not h.thorough() else h.choose(0, 1, 2, 3), "any")
    a, b = h.choose(("", ""), ("var x = ", "\n"), ("var x = 1", "\nvar y = 2\n"), ("resource r 'a", "b' = {}\n"), ("targetScope = '", "'\n"), ("module m '", "' = {}\n"))
    compare(h, a + s + b)


@harness("tree_untransformed")
def tree_untransformed(h):
    """What the transformer would reject or rewrite is rendered as written, in source order."""
    n, v = name(h, 2), h.sym(2, "alnum")
    src, parts = h.choose(
        (lambda: ("targetScope = '" + v + "'\n", ["'" + v + "'"])),
        (lambda: ("resource " + n + " '" + v + "' = {}\n", [n, "'" + v + "'"])),
        (lambda: ("resource " + n + " 'a@b@" + v + "' existing = {\n " + n + ": 1\n}\n", [n, "'a@b@" + v + "'", "existing", n, "1"])),
        (lambda: ("module " + n + " 'br:" + v + "' = {}\n", [n, "'br:" + v + "'"])),
        (lambda: ("@minValue(-1)\nparam " + n + " int = 01\n", ["minValue", "1", n, "int", "01"])),
        (lambda: ("var " + n + " = [true, '" + v + "', null]\n", [n, "'" + v + "'"])),
        (lambda: ("var " + n + " = '''\n" + v + "'''\n", [n, "'''\n" + v + "'''"])),
        (lambda: ("import {" + n + " as b} from '" + v + "'\n", [n, "b", "'" + v + "'"])),
    )()
    r = h.tree(text=src, parser=h.parser(add_line_numbers=h.choose(False, True)))
    t = h.good(r, "create_tree")
    pos = 0
    for p in parts:
        i = t.find(p, pos)
        h.check(i >= 0, "the written text in source order: " + str(len(parts)))
        pos = i + len(p)
    h.check("'decorators': " not in t and "__attrs__" not in t, "nothing is transformed")


@harness("tree_of_file")
def tree_of_file(h):
    t = h.choose(TEXTS)
    c = h.sym(1, "nocr")
    t = t + h.choose("", "// " + c + "\n", c)
    ln = h.choose(False, True)
    p = h.parser(add_line_numbers=ln)
    a, b = h.tree(text=t, parser=p), h.tree(path=h.file(t), parser=p)
    h.check(outcome(a) == outcome(b), "accepted alike")
    if a.ok:
        h.eq(b.value, a.value, "tree of file and text")


@harness("rewritten")
def rewritten(h):
    """A file is read anew at every parse; files do not mix."""
    d = h.sym(1, "digit")
    ts = ["var x = " + d + "\n", "var y = 1\n", "'''", "var x", ""]
    wants = [doc(variables={"x": var(int(d))}), doc(variables={"y": var(1)}), "ValueError", None, doc()]
    i, j = h.choose(range(5)), h.choose(range(5))
    p = h.parser()
    same = h.choose(True, False)
    f = h.file(ts[i])
    r1 = h.parse_file(f, parser=p)
    if same:
        h.rewrite(f, ts[j])
        g = f
    else:
        g = h.file(ts[j], "second.bicep")
    r2 = h.parse_file(g, parser=p)
    r3 = h.parse_file(f, parser=p)
    for r, k, path in ((r1, i, f), (r2, j, g), (r3, j if same else i, f)):
        w = wants[k]
        if type(w) is dict:
            h.eq(h.good(r, "the file"), w, "the file's present text")
        elif w is None:
            h.check(not r.ok and r.err not in ("ValueError", "TypeError"), "a syntax error")
        else:
            h.check(r.err == w and str(path) in r.text, "ValueError naming the file")


@harness("named_files")
def named_files(h):
    """The file named in the error is the one that was given."""
    n = h.choose("a.bicep", "b c.bicep", "main", "x.txt", "{0}.bicep", "%s.bicep", "'''.bicep")
    p = h.file("var x = '''\n", n)
    r = h.parse_file(p) if h.choose(True, False) else h.tree(path=p)
    h.check(r.err == "ValueError" and str(p) in r.text, "ValueError naming the file")
    q = h.parse("var x = '''\n")
    h.check(q.err == "ValueError" and n not in q.text, "ValueError without a file")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Files and texts that consist of or are named like something the code mentions."""
    w = h.choose(h.literals())
    k = h.choose("text", "name", "comment", "body")
    if k == "name":
        h.assume("/" not in w and w not in (".", ".."))
        p = h.file("var x = 1\n", w)
        h.eq(h.good(h.parse_file(p)), doc(variables={"x": var(1)}), "the file")
        q = h.file("var x = '''\n", w)
        r = h.parse_file(q)
        h.check(r.err == "ValueError" and str(q) in r.text, "ValueError naming the file")
        return
    t = {"text": w, "comment": "// " + w + "\nvar x = 1\n", "body": "var x = '''\n" + w + "\n'''\n"}[k]
    odd = quotes(t) % 2 == 1
    a, b = h.parse(t), h.parse_file(h.file(t))
    h.check(outcome(a) == outcome(b), "file and text are accepted alike")
    h.check((a.err == "ValueError") == odd, "ValueError exactly for an odd number of '''")
    if a.ok:
        h.eq(b.value, a.value, "file and text")
    compare(h, t)


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of delimiters and lines around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 300))
    c = h.sym(1, "alnum")
    k = h.choose("literals", "lines", "one line")
    odd = h.choose(False, True)
    if k == "literals":
        t, w = "", {}
        for i in range(n):
            t, w = t + "var v" + str(i) + " = '''" + c + "'''\n", {**w, "v" + str(i): var(c)}
    elif k == "lines":
        t, w = "// " + c + "\n" * n + "var x = '''\n" + (c + "\n") * n + "'''\n", {"x": var((c + "\n") * n)}
    else:
        t, w = "var x = [" + ", ".join(["'''" + c + "'''"] * n) + "]\n", {"x": var([c] * n)}
    if odd:
        t = t + "// '''\n"
    a = h.parse(t)
    p = h.file(t)
    b = h.parse_file(p)
    if odd:
        h.check(a.err == "ValueError" and b.err == "ValueError" and str(p) in b.text, "ValueError for an odd number of '''")
    else:
        h.eq(h.good(a), doc(variables=w), "text")
        h.eq(h.good(b), doc(variables=w), "file")
        compare(h, t)
