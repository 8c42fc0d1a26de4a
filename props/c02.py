from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "bodies of 0..4 arbitrary characters (any line structure), 0..2 at 8 positions, two literals of 0..2 characters",
    "thorough": "bodies of 0..6 arbitrary characters, 0..3 at 17 positions, two literals of 0..3 characters",
}


def wellformed(body):
    """No ''' inside, and the body does not end in a quote (it would join the delimiter)."""
    return "'''" not in body and not body.endswith("'")


def value_of(body):
    if body.startswith("\r\n"):
        return body[2:]
    return body[1:] if body.startswith("\n") else body


@harness("alone")
def alone(h):
    body = h.sym(h.choose(range(7 if h.thorough() else 5)), "any")
    h.assume(wellformed(body))
    expect(h, "var", "'''" + body + "'''", value_of(body), "multi-line text")


@harness("starts_with_quote")
def starts_with_quote(h):
    """Quotes directly after the opening delimiter belong to the text (they cannot be told from it otherwise)."""
    q = h.choose("'", "''")
    c = h.sym(1, "-'\r")
    body = h.sym(h.choose(range(3)), "any")
    h.assume(wellformed(c + body))
    expect(h, "var", "'''\n" + q + c + body + "'''", q + c + body, "multi-line text")


@harness("carriage_return")
def carriage_return(h):
    """Carriage returns inside the text are kept."""
    a = h.sym(h.choose(1, 2), "-'\n\r")
    b = h.sym(h.choose(0, 1, 2), "any")
    h.assume(wellformed(b))
    expect(h, "var", "'''" + a + "\r\n" + b + "'''", a + "\r\n" + b, "multi-line text")


@harness("places")
def places(h):
    pos = positions(h, ["param", "output", "item", "items", "prop", "arg", "deco", "right", "then", "config", "paren"])
    body = h.sym(h.choose(range(4 if h.thorough() else 3)), "any")
    h.assume(wellformed(body))
    expect(h, pos, "'''" + body + "'''", value_of(body), "multi-line text")


@harness("two_literals")
def two_literals(h):
    """Two multi-line literals never merge, on one line or on several."""
    n = 4 if h.thorough() else 3
    a = h.sym(h.choose(range(n)), "any")
    b = h.sym(h.choose(range(n)), "any")
    h.assume(wellformed(a) and wellformed(b))
    how = h.choose("array", "decls", "object")
    if how == "array":
        expect(h, "var", "['''" + a + "''', '''" + b + "''']", [value_of(a), value_of(b)])
    elif how == "decls":
        v = h.good(h.parse("var x = '''" + a + "'''\nvar y = '''" + b + "'''\nvar z = 1\n"))
        h.eq(v, doc(variables={"x": var(value_of(a)), "y": var(value_of(b)), "z": var(1)}))
    else:
        expect(h, "var", "{\n  a: '''" + a + "'''\n  b: '''" + b + "'''\n}", {"a": value_of(a), "b": value_of(b)})


@harness("following")
def following(h):
    """A declaration, a comment or a single-line literal after the literal is still seen."""
    a = h.sym(h.choose(range(4)), "any")
    h.assume(wellformed(a))
    how = h.choose("single", "comment", "before")
    if how == "single":
        b = h.sym(h.choose(0, 1, 2), "alnum")
        v = h.good(h.parse("var x = '''" + a + "'''\nvar y = '" + b + "'\n"))
        h.eq(v, doc(variables={"x": var(value_of(a)), "y": var(b)}))
    elif how == "comment":
        c = h.sym(h.choose(0, 1, 2), "line")
        v = h.good(h.parse("var x = '''" + a + "''' //" + c + "\nvar y = 1\n"))
        h.eq(v, doc(variables={"x": var(value_of(a)), "y": var(1)}))
    else:
        b = h.sym(h.choose(0, 1, 2), "alnum")
        v = h.good(h.parse("var y = '" + b + "'\nvar x = '''" + a + "'''\n"))
        h.eq(v, doc(variables={"x": var(value_of(a)), "y": var(b)}))


@harness("code_inside")
def code_inside(h):
    """Text that looks like declarations, comments or interpolations is not interpreted."""
    body = h.choose("var a = 1\n", "// c\n# d\n/* e */\n", "${f('g')} {h: 'i'}\n", "\\n \\' \\\\", "'q' ''r''\n", "@deco()\nparam p string\n", "\n\n  \n", "\t\n")
    c = h.sym(h.choose(0, 1), "-'\r")
    lead = h.choose("", "\n", "\n\n", " \n", " ", "\r\n", "\r\n\r\n", "\r")
    full = lead + body + c
    expect(h, "var", "'''" + full + "'''", value_of(full), "multi-line text")


@harness("unbalanced")
def unbalanced(h):
    """A literal that is never closed is an error."""
    a = h.sym(h.choose(range(4)), "any")
    h.assume(wellformed(a))
    h.bad(h.parse("var x = '''" + a), "unclosed multi-line literal")
    h.bad(h.parse("var x = '''" + a + "'''\nvar y = '''" + a + "\nvar z = 1\n"), "unclosed multi-line literal")


@harness("quote_behind")
def quote_behind(h):
    """The literal ends at the first delimiter: quotes behind it are no part of it (and are an error here)."""
    a = h.sym(h.choose(0, 1, 2, 3), "any")
    h.assume(wellformed(a))
    how = h.choose("line", "item", "next")
    s = h.sym(h.choose(0, 1, 2), "any")
    if how == "line":
        h.assume("\n" not in s and "\r" not in s)
        h.bad(h.parse("var x = '''" + a + "''''" + s + "\n"), "quote behind a multi-line literal")
    elif how == "item":
        h.assume(wellformed(s) and "'" not in s)
        h.bad(h.parse("var x = ['''" + a + "''''" + s + "]\n"), "quote behind a multi-line literal")
    else:
        b = h.sym(h.choose(0, 1), "alnum")
        h.bad(h.parse("var x = '''" + a + "''''''" + b + "'''\n"), "two adjoining multi-line literals")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Texts the code itself mentions."""
    t = h.choose(sorted({*h.words(), *h.literals()}))
    h.assume(wellformed(t))
    b = h.choose("", "\n")
    expect(h, h.choose("var", "prop", "arg", "deco"), "'''" + b + t + "'''", t, "multi-line text")


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of lines and lengths around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 1100))
    c = h.sym(1, "alnum")
    t = h.choose(c, c + "\n", "\n", " ") * n
    expect(h, h.choose("var", "arg"), "'''\n" + t + "'''", t, "multi-line text")


@harness("around_constants")
def around_constants(h):
    """Names and texts that contain one the code itself mentions."""
    spots.constant(h, ["lines"])
