from props.common import *
from symx import effort
from symx.harness import harness

BOUNDS = {
    "quick": "every regular expression of the live lexer and of the package, on texts a w..w b with a of up to 3, w of 1 to 3 and b of up to 1 arbitrary characters, "
             "12 against 24 repetitions of w; the same behind the shortest way to every unbounded repeat of the expression; every ordered pair of 24 nestable constructs, nested resources, "
             "types and interpolations, and 31 repeatable pieces, 8 against 16 repetitions, function calls counted",
    "thorough": "as quick with w of up to 4 characters, and up to 2 arbitrary characters behind the way to a repeat",
}
ASSUMPTIONS = ["effort that grows by a power of the length is allowed: doubling the repetitions may multiply the states of a matcher by 26 and the function calls by 20",
               "a growing effort counts only if some text of at most 600 (constructs: 4000) characters takes more than 8 s on the real code",
               "no limit on nesting is claimed: constructs nested some 200 deep exceed Python's recursion limit and are rejected with an exception"]


def judge(h, entry, a, w, b):
    over = effort.grows(entry, a, w, b)
    if h.symbolic:
        h.check(not over, "backtracking of " + entry[0] + " multiplies with every repetition")
    elif over:
        t = effort.hangs(effort.texts(a, w, b))
        if t is not None:
            h.inputs.append(t)
        h.check(t is None, "a text of " + str(len(t or "")) + " characters is not parsed within seconds, because of " + entry[0])
    else:
        h.check(True)


@harness("matching")
def matching(h):
    """Arbitrary texts from the start."""
    ps = effort.patterns()
    e = ps[h.choose(range(len(ps)))]
    n = h.choose(1, 2, 3) if not h.thorough() else h.choose(1, 2, 3, 4)
    a = h.sym(h.choose(0, 1, 2, 3) if n < 3 else h.choose(0, 1, 2), "any")
    w = h.sym(n, "any")
    b = h.sym(h.choose(0, 1), "any")
    judge(h, e, a, w, b)


@harness("inside")
def inside(h):
    """Arbitrary texts from every unbounded repeat of the expression on."""
    ps = effort.patterns()
    e = ps[h.choose(range(len(ps)))]
    pre = [t for t in effort.prefixes(e) if t]
    h.assume(pre)
    a = pre[h.choose(range(len(pre)))] + h.sym(h.choose(0, 1) if not h.thorough() else h.choose(0, 1, 2), "any")
    w = h.sym(h.choose(1, 2, 3) if not h.thorough() else h.choose(1, 2, 3, 4), "any")
    b = h.sym(h.choose(0, 1), "any")
    judge(h, e, a, w, b)


# (before, after): what is nested
NEST = [("[", "]"), ("[\n  ", "\n]"), ("{ a: ", " }"), ("{\n  a: ", "\n}"), ("(", ")"), ("foo(", ")"), ("concat(k, ", ", 1)"), ("union(\n", "\n)"), ("!", ""), ("-", ""),
        ("k ? 1 : ", ""), ("k + ", ""), ("k == ", ""), ("k && ", ""), ("k ?? ", ""), ("k[", "]"), ("[for i in k: ", "]"), ("[for i in k: if (i) ", "]"), ("[for (i, j) in items(k): ", "]"),
        ("map(k, i => ", ")"), ("k.listKeys(", ")"), ("az.resourceGroup(", ")"), ("{ k: 1, b: ", " }"), ("[1, ", ", 2]")]
# (whole text with %s, piece, separator): what is repeated
REPEAT = [("%s", "var x# = k\n", ""), ("%s", "// c\n", ""), ("%s", "\n", ""), ("%svar x = 1\n", "@foo()\n", ""), ("%sparam x int\n", "@maxLength(#)\n", ""), ("var x = [%s]\n", "k", ", "),
          ("var x = [\n%s]\n", "'a'\n", ""), ("var x = {\n%s}\n", "a#: k\n", ""), ("resource x 'a@1' = {\n%s}\n", "a#: k\n", ""), ("var x = foo(%s)\n", "k", ", "), ("param x %s\n", "t", "[][]"),
          ("param x (%s)\n", "t#", " | "), ("type x = %s\n", "'a#'", " | "), ("import {%s} from 'f'\n", "a#", ", "), ("func f(%s) int => 1\n", "a# int", ", "), ("var x = '%s'\n", "a${b}", ""),
          ("var x = '''%s'''\n", "a\n", ""), ("resource x '%s@1' = {}\n", "a", "/"), ("module x 'br:mcr.microsoft.com/%s:1' = {}\n", "a", "/"), ("module x '%s' = {}\n", "../", ""), ("var x = k%s\n", ".a", ""),
          ("var x = k%s\n", "::a", ""), ("var x = k%s\n", "[0]", ""), ("var x = %sk\n", "k + ", ""), ("var x = %s1\n", "k ? 2 : ", ""), ("%s", "import 'a#'\n", ""), ("%s", "extension a# with {}\n", ""),
          ("%s", "resource r# 'a@1' = {\n  resource c 'b' = {}\n}\n", ""), ("%s", "module m# './m' = {\n  p: k\n}\n", ""), ("var x = [for i in %s: i]\n", "k", "."), ("var x = %s\n", "i => ", "")]


def growth(h, text, what):
    """text(k): the same text with k repetitions."""
    p = h.default_parser(False)
    n1, _ = effort.calls(lambda: p.parse(text=text(1)))
    n2, _ = effort.calls(lambda: p.parse(text=text(8)), 200000)
    _, over = effort.calls(lambda: p.parse(text=text(16)), 20 * (n2 - min(n1, n2 // 2)) + n1)
    if h.symbolic:
        h.check(not over, what)
    elif over:
        ts = [text(k) for k in (20, 25, 30, 40, 60, 100)]
        t = effort.hangs([x for x in ts if len(x) <= 4000])
        h.check(t is None, what + ": " + str(len(t or "")) + " characters are not parsed within seconds")
        if t is not None:
            h.inputs.append(t)
    else:
        h.check(True)


@harness("nested")
def nested(h):
    """Constructs nested in each other, two kinds in turn."""
    l, r = h.choose(NEST)
    l2, r2 = h.choose(NEST)
    a = h.opaque(kinds=("ref", "int", "str", "null", "earr", "obj"))
    host, end = h.choose(("var x = ", "\n"), ("output x int = ", "\n"), ("resource x 'a@1' = {\n  p: ", "\n}\n"), ("@foo(", ")\nvar x = 1\n"))

    def text(k):
        return host + (l + l2) * (k // 2 + 1) + a.src + (r2 + r) * (k // 2 + 1) + end

    growth(h, text, "nesting multiplies the effort")


@harness("nested_resources")
def nested_resources(h):
    cond = h.choose("", "if (k) ")
    typ = h.choose("'b'", "'b@2'", "'b/c'")
    ex = h.choose("", "existing ")

    def text(k):
        return "resource r 'a@1' = " + cond + "{\n" + ("p: k\nresource c " + typ + " " + ex + "= {\n") * k + "q: 1\n" + "}\n" * (k + 1)

    growth(h, text, "nesting resources multiplies the effort")


@harness("nested_types")
def nested_types(h):
    n = name(h, 1)
    l, r = h.choose(("(" + n + " | ", ")"), ("(", " | " + n + ")"), ("(", " | " + n + ")[]"))

    def text(k):
        return "param x " + l * k + "t" + r * k + "\n"

    growth(h, text, "nesting types multiplies the effort")


@harness("nested_literals")
def nested_literals(h):
    a = h.sym(1, "alnum")
    l, r = h.choose(("'" + a + "${", "}'"), ("'${foo(", ", " + a + ")}'"), ("'${[", "]}'"), ("'${{a: ", "}}'"))
    cut = h.choose(False, True)

    def text(k):
        return "var x = " + l * k + "'" + a + "'" + r * (k // 2 if cut else k) + "\n"

    growth(h, text, "nesting interpolations multiplies the effort")


@harness("repeated")
def repeated(h):
    """Pieces one after the other; also in a text that is rejected in the end."""
    host, piece, sep = h.choose(REPEAT)
    a = h.sym(1, "letter")
    tail = h.choose("", "var = \n", "}")

    def text(k):
        return host.replace("%s", sep.join([piece.replace("#", str(i) + a) for i in range(k)])) + tail

    growth(h, text, "repeating multiplies the effort")
