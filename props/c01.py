from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "bodies of 0..4 arbitrary characters alone and in 8 positions (0..2), pairs of literals 0..3 + 0..2, interpolations "
             "${..} with 0..3 arbitrary inner characters, nested quotes one level; object keys 0..3",
    "thorough": "bodies of 0..6 arbitrary characters, 18 positions (0..4), pairs 0..4 + 0..3, interpolations with up to 5 inner characters",
}
ASSUMPTIONS = ["a body is a sequence of Bicep literal characters: no raw line break, quotes and backslashes escaped with a backslash"]


def wellformed(body):
    """Body of a Bicep single-line literal without interpolation."""
    i = 0
    n = len(body)
    while i < n:
        c = body[i]
        if c == "\\":
            if i + 1 >= n:
                return False
            i += 2
            continue
        if c == "'" or c == "\n" or c == "\r":
            return False
        if c == "$" and i + 1 < n and body[i + 1] == "{":
            return False
        i += 1
    return True


@harness("plain")
def plain(h):
    """A literal alone."""
    n = h.choose(range(7 if h.thorough() else 5))
    body = h.sym(n, "line")
    h.assume(wellformed(body))
    expect(h, "var", "'" + body + "'", body, "literal text")


@harness("places")
def places(h):
    """A literal at every place a value may stand."""
    pos = positions(h, ["param", "item", "items", "prop", "arg", "deco", "right", "then", "else", "config", "loop"])
    n = h.choose(range(5 if h.thorough() else 3))
    body = h.sym(n, "line")
    h.assume(wellformed(body))
    expect(h, pos, "'" + body + "'", body, "literal text")


@harness("pair")
def pair(h):
    """Two literals on one line, in several constructs."""
    n = h.choose(range(5 if h.thorough() else 4))
    m = h.choose(range(4 if h.thorough() else 3))
    a = h.sym(n, "line")
    b = h.sym(m, "line")
    h.assume(wellformed(a) and wellformed(b))
    how = h.choose("array", "call", "equals", "object") if h.thorough() or n + m < 4 else "array"
    if how == "array":
        expect(h, "var", "['" + a + "', '" + b + "']", [a, b])
    elif how == "call":
        expect(h, "var", "foo('" + a + "', '" + b + "')", fn("foo", arg_1=a, arg_2=b))
    elif how == "equals":
        expect(h, "var", "'" + a + "' == '" + b + "'", op2("equals", a, b))
    else:
        expect(h, "var", "{\n  a: '" + a + "'\n  b: '" + b + "'\n}", {"a": a, "b": b})


@harness("with_multiline")
def with_multiline(h):
    """A literal before and after a multi-line string on the same line."""
    n = h.choose(range(3))
    a = h.sym(n, "line")
    h.assume(wellformed(a))
    if h.choose(True, False):
        expect(h, "var", "['" + a + "', '''m''']", [a, "m"])
    else:
        expect(h, "var", "['''m''', '" + a + "']", ["m", a])


@harness("comment_after")
def comment_after(h):
    """Quotes and anything else in a comment after the literal do not reach into it."""
    n = h.choose(range(3))
    m = h.choose(range(4 if h.thorough() else 3))
    a = h.sym(n, "line")
    c = h.sym(m, "line")
    h.assume(wellformed(a))
    h.assume("'''" not in c)
    v = h.good(h.parse("var x = '" + a + "' // " + c + "\nvar y = 1\n"))
    h.eq(v, doc(variables={"x": var(a), "y": var(1)}))


def inner_ok(s):
    """Interpolated expression text without quotes and braces."""
    for c in s:
        if c == "'" or c == "{" or c == "}" or c == "\n" or c == "\r" or c == "\\":
            return False
    return True


@harness("interpolation")
def interpolation(h):
    """${...} is kept verbatim, with text around it, several times."""
    pre = h.sym(h.choose(0, 1, 2), "line")
    mid = h.sym(h.choose(1, 2, 3) if not h.thorough() else h.choose(1, 2, 3, 4, 5), "line")
    post = h.sym(h.choose(0, 1), "line")
    h.assume(wellformed(pre) and wellformed(post) and inner_ok(mid))
    h.assume(not pre.endswith("\\"))
    twice = h.choose(False, True)
    body = pre + "${" + mid + "}" + post
    if twice:
        h.assume(wellformed(post + "$"))
        body = body + "-${b}"
    expect(h, "var", "'" + body + "'", body)


@harness("nested_quotes")
def nested_quotes(h):
    """A literal inside an interpolation does not end the outer literal."""
    q = h.sym(h.choose(range(3 if not h.thorough() else 4)), "line")
    h.assume(inner_ok(q))
    pre = h.choose("", "a-", "\\'")
    shape = h.choose("${foo('%s')}", "${foo('%s', b)}-z", "${b['%s']}", "${'%s'}", "${a ? '%s' : 'n'}")
    body = pre + shape.replace("%s", q)
    where = h.choose("var", "items", "arg", "prop")
    expect(h, where, "'" + body + "'", body)


@harness("deep_interpolation")
def deep_interpolation(h):
    """Interpolations nested inside interpolated literals."""
    q = h.sym(h.choose(range(3)), "line")
    h.assume(inner_ok(q))
    shape = h.choose("${foo('a${b}%s')}", "${foo('%s${b}')}", "${foo('${bar('%s')}')}", "${foo('${b}', '%s')}-${c}")
    body = shape.replace("%s", q)
    expect(h, h.choose("var", "items", "arg"), "'" + body + "'", body)


@harness("key")
def key(h):
    """A quoted object key is the text between its quotes with the quotes kept apart from the value."""
    k = h.sym(h.choose(1, 2, 3), "line")
    h.assume(wellformed(k))
    v = h.good(h.parse("var x = {\n  '" + k + "': 1\n  'z9z9': 'b'\n}\n"))
    h.eq(v, doc(variables={"x": var({"'" + k + "'": 1, "'z9z9'": "b"})}))


@harness("two_lines")
def two_lines(h):
    """Literals of different declarations do not merge."""
    a = h.sym(h.choose(range(3)), "line")
    b = h.sym(h.choose(range(3)), "line")
    h.assume(wellformed(a) and wellformed(b))
    v = h.good(h.parse("var x = '" + a + "'\nparam y string = '" + b + "'\n"))
    h.eq(v, doc(variables={"x": var(a)}, parameters={"y": param("string", b)}))


@harness("ends_where_it_should")
def ends_where_it_should(h):
    """Whatever the body, text after the closing quote is never swallowed: an unescaped quote ends the literal."""
    a = h.sym(h.choose(range(3)), "line")
    g = h.sym(h.choose(1, 2), "letter")
    h.assume(wellformed(a))
    h.bad(h.parse("var x = '" + a + "'" + g + "'\n"), "text after the closing quote must be rejected")


@harness("unclosed")
def unclosed(h):
    """A literal without closing quote is rejected."""
    a = h.sym(h.choose(range(4)), "line")
    h.assume(wellformed(a))
    h.bad(h.parse("var x = '" + a + "\n"), "unclosed literal")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Texts the code itself mentions."""
    t = h.choose(sorted({*h.words(), *h.literals()}))
    h.assume(wellformed(t))
    expect(h, h.choose("var", "items", "prop", "arg", "deco", "config", "right"), "'" + t + "'", t, "literal text")


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Lengths around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 1100))
    c = h.sym(1, "alnum")
    t = c * n
    expect(h, h.choose("var", "prop", "arg", "deco"), "'" + t + "'", t, "literal text")


@harness("around_constants")
def around_constants(h):
    """Texts that contain one the code itself mentions."""
    spots.constant(h, ["text", "list_arg", "description", "metadata"])
