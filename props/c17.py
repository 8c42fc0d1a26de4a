from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "16 base texts covering every kind of declaration and value, with every gap between tokens marked; at every gap: spaces, tabs, block comments with "
             "0..2 symbolic characters, and where line breaks are accepted also //, #, blank lines and CRLF with 0..2 symbolic characters of comment text; "
             "in all gaps at once; comment texts that look like code; strings that look like comments with 2 symbolic characters; 3, 12 and 13 comment lines at every gap that takes any",
    "thorough": "as quick with comment texts of up to 4 symbolic characters and pairs of gaps",
}
ASSUMPTIONS = ["comments do not make the number of ''' in the text odd (C18: such texts are rejected as documented)",
               "the call parenthesis follows the function name directly"]

# · between two tokens   ~ blanks only   ¶ any number of line breaks and line comments   ¤ any number of line breaks and line comments, none by default
BASES = [
    "¶targetScope·=·'tenant'¶",
    "¶import·a·as·b·from·'f'¶import·{·a·,·c·as·d·}·from·'g'¶import·'ns'¶",
    "¶extension·e¶extension·f·with·{¶a·:·1¶}·as·g¶",
    "¶metadata·m·=·'x'¶",
    "¶param·p·string¶param·q·int·=·1¶param·r·a·[·]·[·]·=·[¶]¶param·s·(·a·|·b·)·=·k¶",
    "¶var·v·=·1¶var·w·t·=·'x'¶var·x·=·true¶var·y·=·null¶",
    "¶output·o·string·=·'x'¶output·p·object·=·{¶a·:·1·,¶b·:·2¶c·:·3¶}¶",
    "¶resource·r·'a/b@1'·=·{¶name·:·k¶resource·c·'y'·existing·=·{¶a·:·1¶}¶z·:·2¶}¶",
    "¶resource·r·'a/b@1'·existing·=·if·(·k·)·{¶a·:·k¶}¶",
    "¶module·m·'./m'·=·[¤for·i·in·k·:·if~(·l·)·{¶a·:·i¶}¤]¶module·o·'./m'·=·[for·i·in·items~(·k·)·:·{¶}]¶module·n·'br/public:a:1'·=·[for·(·i·,·j·)·in·k·:·{¶}]¶",
    "¶type·t·=·'a'·|·'b'¶type·u·=·{¶a·:·b¶}¶",
    "¶func·f·(·a·int·,·b·c·[·]·)·string·=>·k¶",
    "¶@description(¤'d'¤)¶@secure(¤)¶@foo(¤1¤)¶param·p·string¶",
    "¶var·v·=·[¶1·,¶'x'¶[¶k¶]¶{¶}¶]¶",
    "¶var·v·=·foo(¤1·,¤k·,¤'x'¤)¶var·w·=·union(¤{¶a·:·1¶}·,¤{¶b·:·2¶}¤)¶var·x·=·foo(¤)¶",
    "¶var·v·=·(·a·+·b·)·*·2¶var·w·=·!·a·&&·b¶var·x·=·a·?·b·:·c¶var·y·=·-·1¶var·z·=·a·??·b¶var·q·=·a·==·1·||·b·!=·2¶",
    "¶var·v·=·a·.·b·.·c¶var·w·=·a·[·0·]¶var·x·=·a·::·b¶var·y·=·a·.·listKeys(·'x'·,·1·)¶",
    "¶var·v·=·map(·a·,·x·=>·y·)¶",
    "¶var·v·=·'''a\nb'''¶var·w·=·'a${b}c'¶",
]
MARKS = "·¶¤~"


def split(b):
    """[text, mark, text, mark, ...]"""
    out, cur = [], ""
    for c in b:
        if c in MARKS:
            out += [cur, c]
            cur = ""
        else:
            cur += c
    return out + [cur]


DEFAULT = {"~": " ", "·": " ", "¶": "\n", "¤": ""}


def plain(b):
    return "".join(DEFAULT.get(p, p) for p in split(b))


def same(h, base, text, msg):
    h.eq(h.good(h.parse(text), msg), h.good(h.parse(plain(base)), "plain text"), msg)


def lens(h):
    return h.choose(0, 1, 2) if not h.thorough() else h.choose(0, 1, 2, 4)


def at_gap(h, kinds, filler):
    """The base text with something put into one gap of a kind."""
    b = h.choose(BASES)
    ps = split(b)
    gaps = [i for i in range(1, len(ps), 2) if ps[i] in kinds]
    h.assume(len(gaps) > 0)
    g = h.choose(gaps)
    text = ""
    for i, p in enumerate(ps):
        text = text + (filler(h, p) if i == g else DEFAULT.get(p, p))
    return b, text


def blank(h, m):
    if m == "~":
        return h.choose("\t", "   ", " \t ", "\t ")
    return h.choose("\t", "   ", " \t ", "/**/", "/* */ ", " /* c */ /* d */ ", "/* a\nb */") + DEFAULT[m]


@harness("blanks")
def blanks(h):
    """Spaces, tabs and block comments between any two tokens."""
    b, t = at_gap(h, MARKS, blank)
    same(h, b, t, "blanks and block comments")


@harness("no_blanks")
def no_blanks(h):
    """The blank between two tokens may be left out unless two words would merge."""
    b = h.choose(BASES)
    ps = split(b)
    word = lambda c: c.isalnum() or c == "_"
    t = ""
    for i, p in enumerate(ps):
        if p == "~" or p == "·":
            l, r = ps[i - 1][-1:], ps[i + 1][:1]
            p = " " if (word(l) and (word(r) or r in "'(")) or (l in "]" and word(r)) or (l == "?" and r == "?") else ""
        t = t + DEFAULT.get(p, p) if p != "" else t
    t = t.replace("items(", "items (")
    same(h, b, t, "no blanks")


@harness("block_comments")
def block_comments(h):
    """Whatever a block comment contains."""
    n = lens(h)
    s = h.sym(n, "nocr")
    h.assume("*/" not in s + "*")
    h.assume("*/" not in s)
    b, t = at_gap(h, "·", lambda h, m: " /*" + s + "*/ ")
    same(h, b, t, "block comment")


def line_filler(h, m):
    k = h.choose("//", "#")
    s = h.sym(lens(h), "line")
    return " " + k + s + "\n"


@harness("line_comments")
def line_comments(h):
    """Whatever a line comment contains, at every place that accepts line breaks."""
    b, t = at_gap(h, "¶", line_filler)
    same(h, b, t, "line comment")


@harness("call_comments")
def call_comments(h):
    b, t = at_gap(h, "¤", line_filler)
    same(h, b, t, "line comment in a call, decorator or loop")


@harness("line_breaks")
def line_breaks(h):
    b, t = at_gap(h, "¶", lambda h, m: h.choose("\n\n", "\r\n", "\n  \n\t\n", "\r\n\r\n", "\n// c\n", "// c\r\n", "// c\n// d\n", "\n\n# c\n\n", "/* c */\n", "\n  "))
    same(h, b, t, "line breaks")


@harness("call_breaks")
def call_breaks(h):
    b, t = at_gap(h, "¤", lambda h, m: h.choose("\n", "\n\n", "\r\n", "\n  ", " // c\n", " // c\r\n", " // c\n\n  ", "  ", "\n // c\n // d\n\n", " # c\n # d\n"))
    same(h, b, t, "line breaks")


@harness("many_lines")
def many_lines(h):
    """Any number of comment lines and blank lines."""
    c = h.sym(1, "line")
    n = h.choose(3, 12, 13) if not h.thorough() else h.choose(range(3, 16))
    k = h.choose("//", "# ", " \n//")
    b, t = at_gap(h, "¶¤", lambda h, m: " " + (k + c + "\n") * n)
    same(h, b, t, "many comment lines")


@harness("everywhere")
def everywhere(h):
    """In all gaps at once."""
    b = h.choose(BASES)
    s, c = h.sym(1, "nocr"), h.sym(1, "line")
    f = h.choose({"~": " ", "·": " ", "¶": " //" + c + "\n\n", "¤": ""}, {"~": "\t", "·": "\t/*" + s + " */", "¶": "\n", "¤": ""}, {"~": " ", "·": " ", "¶": "\r\n\r\n", "¤": "\r\n"},
                 {"~": "\t ", "·": " /*" + s + " */\t", "¶": " //" + c + "\n", "¤": "//" + c + "\n"})
    t = ""
    for p in split(b):
        t = t + (f[p] if p in f else p)
    same(h, b, t, "everywhere")


@harness("two_gaps", thorough_only=True)
def two_gaps(h):
    b = h.choose(BASES)
    ps = split(b)
    n = len(ps) // 2
    i = h.choose(range(n))
    j = h.choose(range(n))
    h.assume(i < j)
    fill = {"~": ["\t", "  "], "·": [" /*'*/", "\t"], "¶": ["// '\n", "\r\n", "/* */\n\n"], "¤": ["// (\n", "\n", " "]}
    t = ""
    for x, p in enumerate(ps):
        t = t + (h.choose(fill[p]) if x in (2 * i + 1, 2 * j + 1) else DEFAULT.get(p, p))
    same(h, b, t, "two gaps")


CODE = ["var v = 2", "resource x 'y' = {", "'", "''", "''' '''", "}", "{", "]", "(", ")", "@secure()", "\\", "${", "*", "/*", "//", "#", ",", ":", "=", "if (", "for", "'a", "1", "-"]


@harness("code_in_comments")
def code_in_comments(h):
    """Comments that look like code, like quotes or like other comments."""
    c = h.choose(CODE)
    how = h.choose(" //", " // ", " #", "/*")
    if how == "/*":
        b, t = at_gap(h, "·", lambda h, m: " /* " + c + " */ ")
    else:
        b, t = at_gap(h, "¶", lambda h, m: how + c + "\n")
    same(h, b, t, "code in a comment")


@harness("last_line")
def last_line(h):
    """A comment or blanks at the very end, without a line break."""
    b = h.choose(BASES)
    t = plain(b)
    s = h.sym(lens(h), "line")
    how = h.choose("\n//", " //", " #", "\n#", "/*", "")
    if how == "/*":
        h.assume("*/" not in s + "*")
        h.assume("*/" not in s)
        t = t[:-1] + "/*" + s + "*/"
    elif how == "":
        t = t[:-1] + h.choose("", " ", "\t")
    else:
        t = t[:-1] + how + s
    same(h, b, t, "at the end")


@harness("comments_in_strings")
def comments_in_strings(h):
    """Text in a string is never a comment."""
    a, c = h.sym(lens(h), "printable"), h.sym(1, "printable")
    h.assume("'" not in a + c and "\\" not in a + c and "$" not in a + c)
    m = h.choose("//", "/*", "*/", "#", "/* x */", "/**/")
    place = h.choose(["var", "param", "items", "prop", "arg", "deco", "right", "config", "loop"])
    expect(h, place, "'" + a + m + c + "'", a + m + c, "string")


@harness("comments_in_multi_line")
def comments_in_multi_line(h):
    a, c = h.sym(lens(h), "nocr"), h.sym(1, "nocr")
    h.assume("'" not in a + c)
    h.assume(a == "" or a[0] != "\n")
    m = h.choose("//", "/*", "*/", "#", "/* x */", "/**/")
    place = h.choose(["var", "items", "prop", "arg", "deco"])
    expect(h, place, "'''" + a + m + c + "'''", a + m + c, "string")


@harness("string_then_comment")
def string_then_comment(h):
    """A comment after a string that looks like a comment, and the other way round."""
    c, d = h.sym(1, "line"), h.sym(1, "printable")
    h.assume("'" not in d and "\\" not in d and "$" not in d)
    s, e = h.choose(("'//" + d + "'", "//" + d), ("'/*" + d + "'", "/*" + d), ("'#" + d + "'", "#" + d), ("'''//" + d + "'''", "//" + d))
    t = h.choose("var x = " + s + " //" + c + "\n", "var x = " + s + " /* '" + d + "*/\n", "//" + c + " " + "'" + "\nvar x = " + s + "\n",
                 "/* '" + d + " */ var x = " + s + "\n")
    h.eq(h.good(h.parse(t)), doc(variables={"x": var(e)}), "string and comment")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Comments that consist of words the code itself mentions."""
    w = h.choose(h.words())
    b = h.choose(BASES[4], BASES[7], BASES[12], BASES[13], BASES[1])
    f = {"~": " ", "·": " /*" + w + "*/ ", "¶": " // " + w + "\n# " + w + "\n", "¤": ""}
    t = ""
    for p in split(b):
        t = t + (f[p] if p in f else p)
    same(h, b, t, "comments")


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of blanks, blank lines and comments around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 130))
    k = h.choose("", " ", "\t", "line", "comment", "block")
    f = {"": {"¶": "\n" * n, "¤": "\n" * n}, "line": {"¶": "\r\n" * n}, "comment": {"¶": "// c\n" * n, "¤": "// c\n" * n}, "block": {"·": " /* c */ " * n}}.get(k, {"·": k * n, "~": k * n, "¶": "\n" + k * n, "¤": k * n})
    f = {**DEFAULT, **f}
    b = h.choose(BASES)
    t = ""
    for p in split(b):
        t = t + (f[p] if p in f else p)
    same(h, b, t, "blanks and comments")
