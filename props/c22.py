from props import c06
from props.c12 import spec
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "32 declarations covering every kind, truncated after every token; every character of 40 texts replaced by, followed by, or deleted in favour of any one symbolic "
             "character; 1 free symbolic character inserted at every token boundary of 40 texts and 2 at every one of 8; symbolic unknown keywords of 1 to 4 characters, keywords with one "
             "character changed; symbolic target scopes (one or two characters changed, all short ones); unclosed or mismatched brackets and quotes around every value shape; stray tokens "
             "between, before and after declarations",
    "thorough": "as quick with 3 free characters, two changed characters, unknown keywords of up to 8 characters",
}
ASSUMPTIONS = ["the null-forgiving mark '!', the nullable mark '?' and the safe-access mark '.?' carry no entry in the result "
               "(documented format) and the sys./az. prefix of a built-in is not part of its type"]

# pieces of a declaration; a trailing "|" marks a point at which it is complete
DECLS = [
    "param |N |string|\n",
    "param |N |string|[|]|\n",
    "param |N |string| = |k\n",
    "param |N |(|a| | |b|)\n",
    "var |N |= |k\n",
    "var |N |= |[\n|k\n|]\n",
    "var |N |= |{\n|a|: |k\n|}\n",
    "var |N |= |foo(|k|, |1|)\n",
    "var |N |= |'a|b|'\n",
    "var |N |= |(|k|)\n",
    "var |N |= |k|[|1|]\n",
    "var |N |= |k| == |k\n",
    "var |N |= |k| ? |1| : |k\n",
    "var |N |= |!|k\n",
    "var |N |= |k|.|b\n",
    "var |N |= |k|::|b\n",
    "var |N |= |k|.|listKeys|(|k|)\n",
    "var |N |= |[|for |i |in |k|: |{|}|]\n",
    "var |N |= |[|for |(|i|, |j|) |in |k|: |if (|k|) |k|]\n",
    "output |N |string |= |k\n",
    "resource |N |'a/b@1' |= |{\n|}\n",
    "resource |N |'a/b@1' |existing |= |{\n|}\n",
    "resource |N |'a/b@1' |= |if (|k|) |{\n|a|: |k\n|}\n",
    "resource |p |'a/b@1' |= |{\n|resource |N |'y' |= |{\n|}\n|}\n",
    "module |N |'./m' |= |{\n|}\n",
    "type |N |= |k\n",
    "func |f|(|a |int|) |string |=> |k\n",
    "metadata |N |= |'m'\n",
    "import |N |as |b |from |'f'\n",
    "import |{|N|, |b|} |from |'f'\n",
    "extension |N| with |{\n|}| as |b\n",
    "targetScope |= |'tenant'\n",
    "@|foo|(|1|)|\n|param N int\n",
    "@|foo|(|1|)|\n|@|secure|(|)|\n|var N = k\n",
]
# prefixes that are complete by themselves (as text, with N for the name)
COMPLETE = {"param N string", "param N string[]", "var N = k", "var N = foo", "extension N", "import N", "extension N with {\n}", "func f(a int) string => k",
            "type N = k", "output N string = k", "import N as b from 'f'", "var N = [\nk\n]", "var N = k.listKeys"}


def fill(s, n):
    return "".join(n if p == "N" else p for p in _split(s))


def _split(s):
    out, cur = [], ""
    for c in s:
        if c == "N":
            out.append(cur)
            out.append("N")
            cur = ""
        else:
            cur += c
    out.append(cur)
    return out


def whole(s):
    return s.replace(" | |", "\0").replace("|", "").replace("\0", " |")


def pieces(s):
    """Token boundaries of a declaration."""
    t = s.replace(" | |", "|\0|")
    return [p.replace("\0", "| ") for p in t.split("|")]


@harness("accepted")
def accepted(h):
    """The whole declarations are accepted (so that the rejections below say something)."""
    d = h.choose(DECLS)
    n = name(h, 1)
    h.assume(n not in ("p", "f", "b"))
    h.good(h.parse(fill("".join(pieces(d)), n)))


@harness("truncated")
def truncated(h):
    """A declaration cut off after a token that does not complete it is rejected, whatever follows."""
    d = h.choose(DECLS)
    ps = pieces(d)
    i = h.choose(range(1, len(ps)))
    head = "".join(ps[:i]).rstrip()
    h.assume(head not in COMPLETE)
    n = name(h, 1)
    h.assume(n not in ("p", "f", "b"))
    nl = h.choose("", "\n", " // c\n")
    after = h.choose("", "var zz = 1\n", "param zz int\n") if nl and d[0] != "@" else ""
    before = "" if after else h.choose("", "var zz = 1\n\n", "// c\n\nparam zz int\n\n\n// d\n", "resource zz 'a@1' = {\n  resource zy 'b' = {\n  }\n}\n\n@foo()\nvar zx = 1\n")
    h.bad(h.parse(before + fill(head, n) + nl + after), "a truncated declaration")


@harness("headless")
def headless(h):
    """A declaration without its first tokens is rejected."""
    d = h.choose([d for d in DECLS if not d.startswith("@")])
    ps = pieces(d)
    i = h.choose(range(1, len(ps)))
    n = name(h, 1)
    tail = "".join(ps[i:])
    h.assume(tail.strip() != "")
    if "resource N" in tail or "resource |N" in tail:
        h.assume(False)
    before = h.choose("", "var zz = 1\n", "metadata zz = 'm'\n", "// c\n\nvar zz = 1\n\n\n")
    h.bad(h.parse(before + fill(tail, n)), "a declaration without its beginning")


@harness("missing_token")
def missing_token(h):
    """A declaration with one token left out is rejected or says something else."""
    d = h.choose(DECLS)
    ps = pieces(d)
    i = h.choose(range(len(ps)))
    h.assume(ps[i].strip() != "")
    n = name(h, 1)
    base = h.parse(fill("".join(ps), n))
    r = h.parse(fill("".join(ps[:i] + ps[i + 1:]), n))
    h.check(not r.ok or r.value != base.value, "rejected, or another result")


def blank(c):
    return c in " \t\r\n"


# texts with varied content; no part of them is optional decoration
TEXTS = [
    "param a string\n", "param a b[]\n", "param a b = k\n", "param a (b | c)\n", "var a = k\n", "var a = 'b'\n", "var a = [k, b]\n", "var a = {\n b: k\n}\n", "var a = foo(k, b)\n", "var a = empty(k)\n",
    "var a = (k)\n", "var a = k[b]\n", "var a = k == b\n", "var a = k ? b : c\n", "var a = !k\n", "var a = -k\n", "var a = k.b\n", "var a = k::b\n", "var a = k.listX(b)\n", "var a = [for i in k: b]\n",
    "var a = [for (i, j) in k: b]\n", "var a = [for i in k: if (c) b]\n", "output a b = k\n", "resource a 'b@c' = {}\n", "resource a 'b@c' existing = {\n d: k\n}\n",
    "resource a 'b@c' = if (k) {}\n", "resource a 'b@c' = {\n resource d 'e' = {}\n}\n", "module a 'b' = {}\n", "type a = b\n", "type a = b | c\n", "func a(b c) d => k\n", "metadata a = 'b'\n",
    "import a from 'b'\n", "import a as c from 'b'\n", "import 'b'\n", "extension a\n", "extension a with {} as b\n", "@foo(k)\nparam a b\n", "@secure()\nparam a b\n", "var a = '''b'''\n",
]


def quiet(h, text, i, c):
    """Places where a changed character legitimately changes nothing: handled by the caller through `same_ok`."""


def same_text(h, s):
    """What remains of an inserted text that carries no content: blanks, separators, marks and comments."""
    out = ""
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == "#":
            break
        if c == "/" and i + 1 < n and s[i + 1] == "/":
            break
        if not (c in " \t\r\n,!?"):
            out = out + c
        i += 1
    return out


@harness("replaced")
def replaced(h):
    """Another character in any place: rejected, or another result."""
    t = h.choose(TEXTS)
    i = h.choose(range(len(t) - 1))
    h.assume(not blank(t[i]))
    base = h.good(h.parse(t), "the text itself")
    c = h.sym(1, "printable" if not h.thorough() else "any")
    h.assume(c != t[i])
    # a comment start takes the rest of the line away: only what is complete without it may be accepted
    r = h.parse(t[:i] + c + t[i + 1:])
    if r.ok and r.value == base:
        # only separators may be exchanged for one another
        h.check(t[i] in "," and c in "\r\n", "rejected, or another result")


@harness("inserted")
def inserted(h):
    """Characters inserted at any place outside of a word: rejected, or another result, or blank."""
    t = h.choose(TEXTS)
    base = h.good(h.parse(t), "the text itself")
    i = h.choose([i for i in range(len(t)) if i == 0 or not (t[i - 1].isalnum() and t[i].isalnum())])
    s = h.sym(2 if h.thorough() else 1, "printable")
    r = h.parse(t[:i] + s + t[i:])
    if r.ok and r.value == base:
        h.check(same_text(h, s + "/" if t[i:i + 1] == "/" else s) == "", "rejected, or another result")


@harness("inserted_any")
def inserted_any(h):
    """The same with any two characters, at the ends and between tokens of some texts."""
    t = h.choose(TEXTS[4:8] + TEXTS[22:24] + ["param a b\n", "@foo()\nvar a = k\n"]) if not h.thorough() else h.choose(TEXTS)
    base = h.good(h.parse(t), "the text itself")
    i = h.choose([i for i in range(len(t) + 1) if i == 0 or i == len(t) or blank(t[i]) or blank(t[i - 1])])
    s = h.sym(3 if h.thorough() else 2, "printable")
    h.assume("#" not in s and "//" not in s and not (s[-1] == "/" and t[i:i + 1] == "/"))  # what follows a comment sign is not read
    r = h.parse(t[:i] + s + t[i:])
    if r.ok and r.value == base:
        h.check(same_text(h, s) == "" or s == "()", "rejected, or another result")


@harness("deleted")
def deleted(h):
    """One character left out: rejected, or another result."""
    t = h.choose(TEXTS)
    i = h.choose(range(len(t) - 1))
    h.assume(not blank(t[i]))
    base = h.good(h.parse(t), "the text itself")
    r = h.parse(t[:i] + t[i + 1:])
    if r.ok:
        h.check(r.value != base or t[i] in ",", "rejected, or another result")


@harness("stray_between")
def stray_between(h):
    """Text that is no declaration before, between or after declarations is rejected."""
    n = h.choose(1, 2, 3) if h.thorough() else h.choose(1, 2)
    s = h.sym(n, "printable")
    for c in s:
        h.assume(not (c in " \t#/"))
    a = h.choose("", "var a = k\n", "param a string\n", "metadata a = 'm'\n")
    b = h.choose("", "var b = 1\n", "extension b\n")
    h.bad(h.parse(a + s + "\n" + b), "a stray token between declarations")


@harness("stray_words")
def stray_words(h):
    """Values, names and pieces of code at the top level are rejected."""
    n = name(h, 2)
    s = h.choose(n, "'" + n + "'", n + "()", n + " = 1", n + ": 1", "[" + n + "]", "{" + n + ": 1}", "{}", "[]", "'''" + n + "'''", "12", n + " " + n, n + " string", n + " " + n + " = 1", n + ".b", "!" + n, "@" + n,
                 "@" + n + "()", "@" + n + "(1)\n", "=", "if (" + n + ") {}", "for " + n + " in k: 1", "existing", "=> " + n, n + "=> 1", "(" + n + ")", "with {}", "as " + n, "from 'f'")
    h.assume(n not in ("if",))
    a = h.choose("", "var a = 1\n", "param a string = 'x'\n", "import 'x'\n", "targetScope = 'tenant'\n")
    b = h.choose("", "targetScope = 'tenant'\n", "metadata b = 'm'\n")
    h.assume(not (s.startswith("@") and False))
    h.bad(h.parse(a + s + "\n" + b), "a stray piece of code")


@harness("trailing")
def trailing(h):
    """Another value after a complete declaration, on its line, is rejected."""
    n = name(h, 2)
    d = h.digits(1)
    s = h.choose(d, "'" + n + "'", "{}", ")", "]", "}", "= " + n, "{" + n + ": 1}", "'''" + n + "'''", ", " + n, ": " + n, "] " + n, ") " + n, "=> ", "| ", "&& ", "|| ", "?? ", "+", "*", ".", "::")
    t = h.choose("var a = k", "var a = 'x'", "var a = {}", "var a = []", "param a string = k", "output a int = k", "resource a 'b@c' = {}", "module a 'b' = {}", "metadata a = 'x'",
                 "func a(b c) d => k", "import a from 'x'", "import 'x'", "targetScope = 'tenant'", "extension a with {} as b")
    if s.startswith("| "):
        h.assume(not t.startswith("type"))
    after = h.choose("\n", "\nvar zz = 1\n")
    h.bad(h.parse(t + " " + s + after), "something after a complete declaration")


KEYWORDS = {"param": " x int\n", "var": " x = 1\n", "output": " x int = 1\n", "resource": " x 'a@1' = {}\n", "module": " x './m' = {}\n", "type": " x = int\n", "func": " x() int => 1\n",
            "metadata": " x = 'm'\n", "import": " x from 'f'\n", "extension": " x\n", "targetScope": " = 'tenant'\n"}


@harness("unknown_keyword")
def unknown_keyword(h):
    """A declaration keyword of any other spelling is rejected."""
    n = h.choose(1, 2, 3, 4) if not h.thorough() else h.choose(1, 2, 3, 4, 5, 6, 7, 8)
    kw = name(h, n)
    for k in KEYWORDS:
        if len(k) == n:
            h.assume(kw != k)
    k = h.choose(list(KEYWORDS))
    pre = h.choose("", "var a = k\n", "@foo()\n")
    h.bad(h.parse(pre + kw + KEYWORDS[k]), "an unknown keyword")


@harness("misspelt_keyword")
def misspelt_keyword(h):
    """A keyword with one character changed, added or missing is rejected."""
    k = h.choose(list(KEYWORDS))
    i = h.choose(range(len(k)))
    c = h.sym(1, "ident")
    how = h.choose("changed", "added", "missing", "upper", "end")
    kw = k[:i] + (c + k[i + 1:] if how == "changed" else c + k[i:] if how == "added" else k[i + 1:] if how == "missing" else k + c if how == "end" else k[i].swapcase() + k[i + 1:])
    if how == "changed":
        h.assume(c != k[i])
    h.bad(h.parse(kw + KEYWORDS[k]), "a misspelt keyword")


SCOPES = ["resourceGroup", "subscription", "managementGroup", "tenant"]


@harness("target_scope")
def target_scope(h):
    """Only the four scopes are accepted, in this spelling."""
    k = h.choose(SCOPES)
    i = h.choose(range(len(k)))
    how = h.choose("changed", "added", "missing", "end", "short", "cut")
    c = h.sym(1, "notquote")
    h.assume(not (c in "\\$"))
    s = {"changed": k[:i] + c + k[i + 1:], "added": k[:i] + c + k[i:], "missing": k[:i] + k[i + 1:], "end": k + c, "short": c, "cut": k[:i]}[how]
    if how == "changed":
        h.assume(c != k[i])
    if how == "end":
        h.assume(i == 0)
    h.bad(h.parse("targetScope = '" + s + "'\n"), "an invalid target scope")


@harness("target_scope_free")
def target_scope_free(h):
    """Any scope of the length of a valid one is accepted exactly when it is that one."""
    k = h.choose(SCOPES)
    s = h.sym(len(k), "letter")
    r = h.parse("targetScope = '" + s + "'\n")
    if r.ok:
        h.eq(r.value, doc(k))
        h.check(s == k, "only this scope")
    else:
        h.check(s != k, "this scope is valid")


PAIRS = [("(", ")"), ("[", "]"), ("{ a: ", " }"), ("foo(", ")"), ("empty(", ")"), ("k[", "]"), ("k.listKeys(", ")"), ("[for i in k: ", "]"), ("'", "'"), ("[\n", "\n]"), ("{\n a: ", "\n}")]


@harness("brackets")
def brackets(h):
    """An unclosed, unopened or wrongly closed bracket around any value is rejected."""
    a = h.shape(kinds=("ref", "int", "str", "earr", "eobj", "obj", "fn", "add", "arr"))
    o, c = h.choose(PAIRS)
    how = h.choose("unclosed", "unopened", "wrong")
    if o == "'":
        src = "'" + a.src if "'" not in a.src else "'"
        h.assume(how == "unclosed")
    elif how == "unclosed":
        src = o + a.src
    elif how == "unopened":
        src = a.src + c
    else:
        w = h.choose(")", "]", "}")
        h.assume(w != c.strip())
        src = o + a.src + w
    host, after = h.choose(("var x = ", "\n"), ("param x int = ", "\n"), ("output x int = ", "\n"), ("var x = [\n", "\n]\n"), ("resource x 'a@1' = {\n p: ", "\n}\n"), ("@foo(", ")\nvar x = 1\n"),
                           ("func f() int => ", "\n"), ("type x = ", "\n"), ("var x = k == ", "\n"), ("var x = ", "\nvar y = [1]\n"), ("var x = ", "\nvar y = { a: 1 }\n"), ("var x = ", "\nvar y = (1)\n"))
    # closing the host's own bracket instead is only possible if it is of the same kind
    text = host + src + after
    h.bad(h.parse(text), "a bracket or quote that is not closed properly")


@harness("open_literals")
def open_literals(h):
    """A literal that is not closed on its line (or at all) is rejected."""
    s = h.sym(2, "line")
    for c in s:
        h.assume(not (c in "'$\\"))
    t, r = h.choose(("var x = '", "\n"), ("var x = '", ""), ("var x = ['", "]\n"), ("param x string = '", "\nvar y = 1\n"), ("import '", "\n"), ("targetScope = '", "\n"), ("resource x '", " = {\n}\n"), ("module x '", " = {}\n"),
                    ("@foo('", ")\nvar x = 1\n"), ("metadata x = '", "\n"), ("var x = '", "\nvar y = \n"), ("var x = '''", "\n"), ("var x = '''", "''\n"), ("var x = '''", "\nvar y = ''''''\n"))
    h.bad(h.parse(t + s + r), "an unclosed literal")


@harness("operators")
def operators(h):
    """Operators without their operands are rejected."""
    n = name(h, 1)
    o = h.choose("==", "!=", ">=", "<=", ">", "<", "=~", "!~", "&&", "||", "??", "+", "*", "/", "%", "-", ".", "::", "?", ":", "=>")
    how = h.choose("left", "right", "both", "twice")
    h.assume(not (how in ("left",) and o in ("-", "!")))
    h.assume(not (how == "twice" and o in ("-", "?", "=>", ":")))
    src = {"left": o + " " + n, "right": n + " " + o, "both": o, "twice": n + " " + o + " " + o + " " + n}[how]
    h.assume(not (how == "right" and o == "?" and False))
    host, after = h.choose(("var x = ", "\n"), ("var x = (", ")\n"), ("var x = foo(", ")\n"), ("param x int = ", "\n"), ("var x = [", "]\n"), ("var x = k == ", "\n"))
    h.bad(h.parse(host + src + after), "an operator without an operand")


@harness("unknown_operators")
def unknown_operators(h):
    """A symbol that is no operator between two operands is rejected."""
    s = h.sym(h.choose(1, 2), "=!%&*+-.:;<=>?@^|~$`\\")
    for o in ("+", "-", "*", "%", ".", "<", ">", "==", "!=", ">=", "<=", "=~", "!~", "&&", "||", "??", "::", ".?", "!.", "=>"):
        if len(o) == len(s):
            h.assume(s != o)
    if len(s) == 2:
        # an operator followed by a sign or a mark
        h.assume(not (s[1] in "-!"))
        h.assume(not (s[0] == "!"))
        h.assume(s[1] != "?")
    h.bad(h.parse("var x = k " + s + " b\n"), "an unknown operator")


@harness("open_interpolations")
def open_interpolations(h):
    """An interpolation that is not closed within its literal is rejected."""
    a, b = h.sym(1, "alnum"), h.sym(h.choose(0, 1), "ident")
    body = h.choose("${", "${" + b, a + "${" + b, "${{" + b + "}", "${" + b + "[{}", "${'" + b + "'", "${'" + b + "}'", "${'${" + b + "'}", "${b}${" + b, "$${", "${foo('${" + b + "')}")
    t, r = h.choose(("var x = '", "'\n"), ("var x = ['", "']\n"), ("param x string = '", "'\nvar y = 1\n"), ("var x = { a: '", "' }\n"), ("@foo('", "')\nvar x = 1\n"), ("var x = foo('", "', k)\n"),
                    ("module x '", "' = {}\n"), ("metadata x = '", "'\n"))
    h.bad(h.parse(t + body + r), "an interpolation that is not closed")


@harness("calls")
def calls(h):
    """Calls, decorators and index accesses with malformed arguments are rejected."""
    n = name(h, 1)
    f = h.choose("foo", "empty", "union", n)
    h.assume(f != "if" and n != "if")
    a = h.choose(",", n + ",", "," + n, n + ",," + n, n + " " + n, n + ";" + n, n + ": 1", n + " =", "=" + n, "(" + n, n + ")", "'" + n, "..." + n)
    host, after = h.choose(("var x = " + f + "(", ")\n"), ("@" + f + "(", ")\nvar x = 1\n"), ("var x = k.listKeys(", ")\n"), ("var x = k[", "]\n"), ("var x = [" + f + "(", ")]\n"))
    h.bad(h.parse(host + a + after), "malformed arguments")


@harness("separator_misplaced")
def separator_misplaced(h):
    """Lists of every kind with a leading, doubled or (where the language has none) trailing separator, or none between two items, are rejected."""
    n = name(h, 1)
    h.assume(n not in ("a", "b"))
    head, items, tail, seps, trailing = h.choose(
        ("func f(", ("a int", "b t[]", n + " (a | b)"), ") int => 1\n", ",", True),
        ("var x = foo(", ("a", n, "1"), ")\n", ",", True),
        ("var x = foo(\n", ("a", n, "1"), "\n)\n", ",", True),
        ("var x = k.listKeys(", ("a", n, "1"), ")\n", ",", True),
        ("var x = map(k, (", ("a", n, "c"), ") => 1)\n", ",", True),
        ("var x = [for (", ("a", n), ") in k: 1]\n", ",", True),
        ("var x = [", ("a", n, "1"), "]\n", ",", False),
        ("var x = [\n", ("a", n, "1"), "\n]\n", ",", False),
        ("var x = {", ("a: 1", n + ": 1", "c: 1"), "}\n", ",", False),
        ("var x = {\n", ("a: 1", n + ": 1", "c: 1"), "\n}\n", ",", False),
        ("resource x 'a@1' = {", ("a: 1", n + ": 1", "c: 1"), "}\n", ",", False),
        ("import {", ("a", n, "c as d"), "} from 'f'\n", ",", False),
        ("param x (", ("a", n, "c"), ")\n", "|", True),
        ("type x = ", ("a", n, "{\n}"), "\n", "|", True),
    )
    items = list(items)[: h.choose(1, 2, 3)]
    gaps = [""] + [seps] * (len(items) - 1) + [""]
    j = h.choose([i for i in range(len(gaps)) if i < len(items) or trailing])
    inner = 0 < j < len(items)
    gaps[j] = gaps[j] + h.choose(seps, " " + seps) if not inner else h.choose(seps + " " + seps, " ", seps + seps + seps)
    if inner and (head.endswith("\n") or seps == "|" and gaps[j] == "||"):
        h.assume(gaps[j] != "||")
    text = head + gaps[0]
    for i, x in enumerate(items):
        text = text + x + gaps[i + 1]
    h.bad(h.parse(text + tail + h.choose("", "var zz = 1\n")), "a separator that separates nothing, or none at all")


@harness("bodies")
def bodies(h):
    """Object and array bodies with malformed content are rejected."""
    n = name(h, 1)
    h.assume(n != "i")
    a = h.choose(n, n + ":", ": 1", n + " 1", n + " = 1", n + ": 1: 2", n + ": 1,,\n", "1: 2", n + ": var", "[" + n + "]: 1", n + ": 1 }", "{", "..." + n, n + "." + n + ": 1", n + "(): 1", "-" + n + ": 1", "@foo() " + n + ": 1", ", " + n + ": 1")
    h.assume(not (a.endswith(": var")))
    host, after = h.choose(("var x = {\n", "\n}\n"), ("resource x 'a@1' = {\n", "\n}\n"), ("module x './m' = {\n", "\n}\n"), ("resource x 'a@1' = {\n properties: {\n", "\n}\n}\n"), ("resource x 'a@1' = if (k) {\n", "\n}\n"),
                           ("resource x 'a@1' = [for i in k: {\n", "\n}]\n"), ("extension x with {\n", "\n}\n"), ("var x = {\n b: 1\n", "\n c: 2\n}\n"))
    h.bad(h.parse(host + a + after), "a malformed body")


@harness("values_missing")
def values_missing(h):
    """Declarations with something that is no value in the value's place are rejected."""
    n = name(h, 1)
    v = h.choose("", "=", ":", ",", "var y = 1", "existing {}", "for i in k: i", "if (k) " + n, "[for i in k]", "[for i k: i]", "[for in k: i]", "[i in k: i]", "[for i in k:]", "[for (i) in k: i]", "[for (i,) in k: i]", "[for (i, j, l) in k: i]",
                 "[for i in : i]", "{" + n + "}", "() ", "@foo()", "'a' 'b'", "k k", "[k k]", "{ a: 1 b: 2 }", "[for i in k: k k]", "0x", "1.5.", "k[]", "k.", "k::", "foo(", "k ? 1", "k ? 1 :", "k ? : 1", "=> 1", "[1", "{a: }", "(,)")
    host = h.choose("var x = ", "param x int = ", "output x int = ", "type x = ", "func f() int => ")
    h.assume(not (v == "existing {}" and False))
    if host.startswith("func"):
        h.assume(v != "var y = 1" or True)
    h.bad(h.parse(host + v + "\n"), "no value")


@harness("statement_shape")
def statement_shape(h):
    """Missing or malformed names, types and paths."""
    n = name(h, 1)
    s = h.sym(1, "letter")
    t = h.choose("param", "param " + n, "param = 1", "param " + n + " = 1", "param " + n + " int = ", "param " + n + " int 1", "param 'x' int", "param 1 int", "param " + n + ".a int", "param " + n + "-a int", "var", "var " + n, "var = 1",
                 "var " + n + " 1", "var " + n + " := 1", "var " + n + " == 1", "var 'x' = 1", "var 1x = 1", "var " + n + ", b = 1", "output " + n + " = 1", "output " + n + " int", "output int = 1", "resource " + n + " = {}", "resource 'a@1' = {}", "resource " + n + " 'a@1'",
                 "resource " + n + " 'a@1' {}", "resource " + n + " 'a@1' = ", "resource " + n + " 'a@1' = k", "resource " + n + " 'a@1' = []", "resource " + n + " 'a@1' = 'x'", "resource " + n + " 'a' = {}", "resource " + n + " '" + s + "@1@2' = {}",
                 "resource " + n + " a@1 = {}", "resource " + n + " 'a@1' exist = {}", "resource " + n + " existing 'a@1' = {}", "module " + n + " = {}", "module './m' = {}", "module " + n + " './m'", "module " + n + " './m' = k", "module " + n + " ./m = {}",
                 "module " + n + " './m' existing = {}", "module " + n + " 'br:" + s + "' = {}", "module " + n + " 'ts/" + s + "' = {}", "metadata " + n, "metadata = 'm'", "metadata " + n + " 'm'", "metadata " + n + " = ", "metadata " + n + " string = 'm'", "import", "import " + n, "import from 'f'",
                 "import " + n + " from", "import " + n + " from f", "import {} from 'f'", "import {" + n + "} 'f'", "import {" + n + " b} from 'f'", "import " + n + " as from 'f'", "import " + n + " b from 'f'", "import {" + n + ", from 'f'", "import * as", "import 'f' as", "extension", "extension 1", "extension " + n + " with",
                 "extension " + n + " with k", "extension " + n + " as", "extension " + n + " as 'b'", "extension " + n + " as b with {}", "extension " + n + " {}", "targetScope", "targetScope =", "targetScope 'tenant'", "targetScope = tenant", "targetScope = ''", "targetScope = 1", "targetScope: 'tenant'")
    h.assume(n != "_" or True)
    after = h.choose("", "var zz = 1\n", "@foo()\nparam zz int\n")
    h.bad(h.parse(t + "\n" + after), "a malformed declaration")


@harness("decorators")
def decorators(h):
    """Decorators that are malformed, or stand in front of nothing they can decorate, are rejected."""
    n = name(h, 1)
    t = h.choose("@" + n + "\nvar x = 1\n", "@\nvar x = 1\n", "@" + n + "(\nvar x = 1\n", "@" + n + "()\n", "@" + n + "()\n@" + n + "()\n", "@" + n + "()\nimport 'f'\n", "@" + n + "()\nmetadata x = 'm'\n", "@" + n + "()\nextension x\n",
                 "@" + n + "()\ntargetScope = 'tenant'\n", "@" + n + "(1 2)\nvar x = 1\n", "@" + n + "(1, 2)\nvar x = 1\n", "@ " + n + ")\nvar x = 1\n", "@" + n + "())\nvar x = 1\n", "@@" + n + "()\nvar x = 1\n", n + "()\nvar x = 1\n", "@" + n + ".b()\nvar x = 1\n", "var x = @" + n + "()\n",
                 "var x = 1 @" + n + "()\n", "@'" + n + "'()\nvar x = 1\n", "@" + n + "[]\nvar x = 1\n")
    h.bad(h.parse(t), "a malformed decorator")


@harness("two_on_a_line")
def two_on_a_line(h):
    """Declarations, items and properties that nothing separates are rejected."""
    n = name(h, 1)
    a = h.choose("var a = k", "param a string", "param a string = 'x'", "output a int = 1", "resource a 'b@c' = {}", "module a 'b' = {}", "type a = b", "func a() b => k", "metadata a = 'x'", "import a from 'b'", "import 'b'", "extension a",
                 "extension a as b", "targetScope = 'tenant'", "var a = [\n]", "var a = '''x'''")
    b = h.choose("var " + n + " = 1", "param " + n + " int", "resource " + n + " 'b@c' = {}", "type " + n + " = int", "import " + n + " from 'b'", "extension " + n, "@foo()\nvar " + n + " = 1", "metadata " + n + " = 'm'", "output " + n + " int = 1")
    sep = h.choose(" ", "\t", " /* c */ ", "")
    h.assume(n != "a")
    h.bad(h.parse(a + sep + b + "\n"), "two declarations without a line break between them")


@harness("unseparated")
def unseparated(h):
    a, b = h.shape(without=("minus", "not", "add", "acc")), h.shape(without=("minus", "add", "acc", "earr", "arr", "not"))
    n = name(h, 1)
    sep = h.choose(" ", "\t", " /* c\n */ ")
    t = h.choose("[" + a.src + sep + b.src + "]", "{ " + n + ": " + a.src + sep + "b: " + b.src + " }", "foo(" + a.src + sep + b.src + ")", "k.listKeys(" + a.src + sep + b.src + ")")
    h.bad(h.parse("var x = " + t + "\n"), "two items without a separator between them")


@harness("surplus")
def surplus(h):
    """A built-in function or decorator is not given more arguments than it reports."""
    nm = h.choose([k for k in c06.T if not any("*" in s for s in c06.T[k][2]) and k not in ("resourceId", "subscriptionResourceId")])
    m = max(c06.counts(h, nm)) + 1
    m = h.choose(m, m + 1)
    args = [h.opaque() for _ in range(m)]
    pre = h.choose("", c06.T[nm][0] + ".")
    h.bad(h.parse("var x = " + pre + nm + "(" + ", ".join(a.src for a in args) + ")\n"), "surplus arguments")


@harness("missing_arguments")
def missing_arguments(h):
    """Nor fewer than it needs."""
    nm = h.choose([k for k in c06.T if min(c06.counts(h, k)) > 0])
    n = h.choose(range(min(c06.counts(h, nm))))
    args = [h.opaque() for _ in range(n)]
    pre = h.choose("", c06.T[nm][0] + ".")
    host, after = h.choose(("var x = ", "\n"), ("var x = [", "]\n"), ("param x int = foo(k, ", ")\n"), ("resource r 'a/b@1' = {\n  p: ", "\n}\n")) if n < 2 else ("var x = ", "\n")
    h.bad(h.parse(host + pre + nm + "(" + ", ".join(a.src for a in args) + ")" + after), "missing arguments")


@harness("missing_decorator_argument")
def missing_decorator_argument(h):
    from props.c08 import HOSTS, WITH

    t, _ = HOSTS[h.choose(list(HOSTS))]
    h.bad(h.parse("@" + h.choose("", "sys.") + h.choose(list(WITH)) + "(" + h.choose("", " ", "\n") + ")\n" + t), "a missing argument")


@harness("type_strings")
def type_strings(h):
    """Resource types without exactly one @, nested ones with more than one, in every form of resource."""
    s = h.sym(h.choose(0, 1, 2) if not h.thorough() else h.choose(0, 1, 2, 3), "line")
    for c in s:
        h.assume(c not in "'\\$")
    nested_ = h.choose(False, True)
    t = h.choose("@", "a/b@1", "@@") if nested_ else h.choose("", "a/b", "a/b@1", "@@")
    t = h.choose(t + s, s + t, s)
    n = 0
    for c in t:
        if c == "@":
            n += 1
    h.assume(n > 1 if nested_ else n != 1)
    host, after = h.choose(("", " = {\n}\n"), ("", " existing = {\n  name: 'x'\n}\n"), ("", " = if (k) {\n}\n"), ("@foo()\n", " = {\n  a: 1\n}\n")) if n != 1 and len(s) < 2 else ("", " = {\n}\n")
    if nested_:
        a, b = h.choose(("", ""), ("resource q 'e' = {\n", "}\n"))
        h.bad(h.parse("resource p 'a/b@1' = {\n" + a + "resource r '" + t + "'" + after + b + "}\n"), "a nested type string with more than one @")
    else:
        h.bad(h.parse(host + "resource r '" + t + "'" + after), "a type string without exactly one @")


PATHS = ["br:mcr.microsoft.com/bicep/a:1", "br:reg.azurecr.io/p/q:v1", "br/public:p/q:1", "br/al:p:t", "ts:0a-1/rg/n:1", "ts/al:p:1"]


@harness("module_paths")
def module_paths(h):
    """Paths with a scheme that lack a part, or have an empty or a malformed one, in every form of module."""
    p = h.choose(PATHS)
    parts = [i for i, c in enumerate(p) if c in ":/" and i > 2]
    how = h.choose("cut", "separator", "doubled", "character", "empty")
    i = h.choose(parts)
    last_ = max(i for i, c in enumerate(p) if c == ":")
    if how == "cut":
        h.assume(i <= last_)
        t = p[:i + h.choose(0, 1)]
        h.assume(len(t) > 3)
    elif how == "separator":
        h.assume(p[i] == ":" or p[:3] == "ts:" or p.index("/") == i)
        t = p[:i] + "x" + p[i + 1:]
        h.assume(p[:8] != "br:reg.a" or p[i] != "/")
    elif how == "doubled":
        h.assume(p[i] == ":")
        t = p[:i] + ":" + p[i:]
    elif how == "character":
        c = h.sym(1, "printable")
        h.assume(c in "!\"#%&*+,;<=>?@[]^`{|}~ ")
        t = p[:i] + c + p[i:]
    else:
        t = p[:3] + h.choose("", "/", ":", "/:", "::", "mcr.microsoft.com/:", "mcr.microsoft.com/a", "a/b:1", ".azurecr.io/b:1", "a:b", "a::1", "a:b:", ":b:1", "a/b/c", "a//c:1", "/b/c:1", "a/b/:1", "a/b/c:")
        h.assume(spec(t) == (None, False))
    host, after = h.choose(("", " = {\n}\n"), ("", " = if (k) {\n  name: 'x'\n}\n"), ("@foo()\n", " = [for i in k: {\n}]\n"), ("var a = 1\n", " = {\n  name: 'x'\n}\nvar b = 2\n"))
    h.bad(h.parse(host + "module m '" + t + "'" + after), "a malformed module path")


@harness("lambda_variables")
def lambda_variables(h):
    """A lambda has names for variables, in every place it may stand."""
    n = name(h, 1)
    v = h.choose("1", "true", "null", "'a'", "[" + n + "]", "{ " + n + ": 1 }", n + "()", n + ".b", "!" + n, n + " + 1", "'''a'''", n + "[0]", "'${" + n + "}'")
    ps = h.choose("(@)", "(@, b)", "(b, @)", "(a, b, @)", "(a, @, c)", "(@, @)")
    i = h.choose([p for p in POSITIONS])
    x, y, _ = POSITIONS[i]
    h.bad(h.parse(x + "map(k, " + ps.replace("@", v) + " => 1)" + y), "a lambda variable that is no name")


@harness("surplus_decorator")
def surplus_decorator(h):
    from props.c08 import HOSTS, WITH, WITHOUT

    n = h.choose(list(WITH) + list(WITHOUT))
    k = 1 if n in WITHOUT else 2
    args = [h.opaque() for _ in range(k)]
    t, _ = HOSTS[h.choose(list(HOSTS))]
    pre = h.choose("", "sys.")
    h.bad(h.parse("@" + pre + n + "(" + ", ".join(a.src for a in args) + ")\n" + t), "surplus arguments")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Words the code itself mentions start no declaration but the documented ones."""
    w = h.choose(h.words())
    h.assume(w not in ("param", "var", "output", "resource", "module", "type", "func", "metadata", "import", "extension", "targetScope", "with", "for"))
    t = h.choose(" x = 1\n", " x string\n", " x 'a/b@1' = {}\n", " 'x'\n", " = 'tenant'\n", " x from 'f'\n", "\n", "()\n")
    h.bad(h.parse(h.choose("", "var a = 1\n", "@foo()\n") + w + t), "an unknown statement")


@harness("scopes_in_the_code")
def scopes_in_the_code(h):
    w = h.choose(sorted({*h.words(), *[x for x in h.literals() if "'" not in x and "\\" not in x and "$" not in x]}))
    h.assume(w not in ("resourceGroup", "subscription", "managementGroup", "tenant"))
    h.bad(h.parse("targetScope = '" + w + "'\n"), "an unknown target scope")


@harness("words_behind")
def words_behind(h):
    """Nor do they stand behind a declaration."""
    w = h.choose(h.words())
    d, k = h.choose(("var x = 1", ()), ("param x string", ()), ("output x string = k", ()), ("resource x 'a/b@1' = {}", ()), ("module x './m' = {}", ()), ("metadata x = 'm'", ()), ("import 'x'", ()), ("import x from 'f'", ()),
                    ("extension x with {}", ("as",)), ("targetScope = 'tenant'", ()), ("type x = k", ()), ("func f() int => 1", ()), ("var x = [\n  1", ()), ("var x = {\n  a: 1", ()))
    h.assume(w not in k)
    close = {"[": "\n]", "{": "\n}"}.get(d[8:9] if d[:3] == "var" else "", "")
    h.bad(h.parse(d + " " + w + close + "\n"), "a word behind a declaration")
