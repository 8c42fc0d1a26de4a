from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "every operator with uninterpreted operands; every ordered pair of operators with each parenthesisation; chains of up to 3 binary "
             "operators chosen by symbolic operator characters; 0..3 arbitrary spacing characters; small and nested values as operands of every operator",
    "thorough": "as quick, with chains of up to 4 operators and every position",
}

BINARY = {
    ">=": "greater_than_or_equals", ">": "greater_than", "<=": "less_than_or_equals", "<": "less_than", "==": "equals",
    "!=": "not_equals", "=~": "equals_case_insensitive", "!~": "not_equals_case_insensitive", "&&": "and", "||": "or",
    "??": "coalesce", "+": "add", "-": "substract", "*": "multiply", "/": "divide", "%": "modulo",
}
OPS = list(BINARY)
QUICK = ["var", "param", "items", "prop", "arg", "deco", "config", "loop"]


@harness("binary")
def binary(h):
    """Kind and operand order, whatever the operands are."""
    o = h.choose(OPS)
    a, b = h.opaque(), h.opaque()
    expect(h, positions(h, QUICK), a.src + " " + o + " " + b.src, op2(BINARY[o], a.val, b.val), o)


@harness("binary_shapes")
def binary_shapes(h):
    """The same with every operand shape written out."""
    o = h.choose(OPS)
    a, b = h.shape(), h.shape()
    expect(h, "var", a.src + " " + o + " " + b.src, op2(BINARY[o], a.val, b.val), o)


@harness("unary")
def unary(h):
    a = h.shape() if h.choose(True, False) else h.opaque()
    src, f = h.choose([("!", not_), ("-", minus)])
    depth = h.choose(1, 2, 3) if src == "!" else 1
    v = a.val
    for _ in range(depth):
        v = f(v)
    expect(h, positions(h, QUICK), src * depth + a.src, v, "unary")


@harness("negative_numbers")
def negative_numbers(h):
    d = h.digits(h.choose(1, 2, 3))
    expect(h, positions(h, QUICK), "-" + d, minus(int(d)), "minus")


@harness("ternary")
def ternary(h):
    c, t, f = h.opaque(), h.opaque(), h.opaque()
    s = h.choose(" ", "")
    expect(h, positions(h, QUICK), c.src + s + "?" + s + t.src + s + ":" + s + f.src, cond(c.val, t.val, f.val), "conditional")


@harness("ternary_nested")
def ternary_nested(h):
    a, b, c, d, e = h.opaque(), h.opaque(), h.opaque(), h.opaque(), h.opaque()
    how = h.choose("else", "then_paren", "cond_paren", "else_paren", "then")
    if how == "else":
        src, v = f"{a.src} ? {b.src} : {c.src} ? {d.src} : {e.src}", cond(a.val, b.val, cond(c.val, d.val, e.val))
    elif how == "then":
        src, v = f"{a.src} ? {b.src} ? {c.src} : {d.src} : {e.src}", cond(a.val, cond(b.val, c.val, d.val), e.val)
    elif how == "then_paren":
        src, v = f"{a.src} ? ({b.src} ? {c.src} : {d.src}) : {e.src}", cond(a.val, cond(b.val, c.val, d.val), e.val)
    elif how == "cond_paren":
        src, v = f"({a.src} ? {b.src} : {c.src}) ? {d.src} : {e.src}", cond(cond(a.val, b.val, c.val), d.val, e.val)
    else:
        src, v = f"{a.src} ? {b.src} : ({c.src} ? {d.src} : {e.src})", cond(a.val, b.val, cond(c.val, d.val, e.val))
    expect(h, "var", src, v, "conditional")


@harness("parentheses")
def parentheses(h):
    """Explicit grouping is kept for every ordered pair of operators."""
    o, p = h.choose(OPS), h.choose(OPS)
    a, b, c = h.opaque(), h.opaque(), h.opaque()
    side = h.choose("left", "right")
    pos = "var"
    if side == "left":
        src = f"({a.src} {o} {b.src}) {p} {c.src}"
        v = op2(BINARY[p], op2(BINARY[o], a.val, b.val), c.val)
    else:
        src = f"{a.src} {o} ({b.src} {p} {c.src})"
        v = op2(BINARY[o], a.val, op2(BINARY[p], b.val, c.val))
    expect(h, pos, src, v, "grouping")


@harness("both_sides")
def both_sides(h):
    """Groups on both sides, and a negated group."""
    o, p = h.choose("&&", "||", "==", "-", "/", "??", "<"), h.choose(OPS)
    a, b, c, d = h.opaque(), h.opaque(), h.opaque(), h.opaque()
    how = h.choose("plain", "negated", "minus")
    l, r = op2(BINARY[p], a.val, b.val), op2(BINARY[p], c.val, d.val)
    ls, rs = f"({a.src} {p} {b.src})", f"({c.src} {p} {d.src})"
    if how == "plain":
        expect(h, "var", f"{ls} {o} {rs}", op2(BINARY[o], l, r), "groups")
    elif how == "negated":
        expect(h, "var", f"!{ls}", not_(l), "negated group")
    else:
        expect(h, "var", f"-{ls}", minus(l), "negated group")


def flatten(v):
    """Operands and operators of a nesting, left to right."""
    if isinstance(v, dict) and len(v) == 1 and "operator" in v:
        op = v["operator"]
        o = op["operands"]
        k = op["type"]
        if k == "not":
            return ["not"] + flatten(o["bool_value"])
        if k == "minus":
            return ["minus"] + flatten(o["integer_value"])
        if k == "conditional":
            return flatten(o["condition"]) + ["?"] + flatten(o["true_value"]) + [":"] + flatten(o["false_value"])
        if len(o) != 2:
            return ["bad operand count", o]
        return flatten(o["operand_1"]) + [k] + flatten(o["operand_2"])
    return [v]


@harness("chains")
def chains(h):
    """No operand or operator of an unparenthesised chain is lost, repeated or moved."""
    names = ["a", "b", "c", "d", "e"]
    n = h.choose(2, 3) if not h.thorough() else h.choose(2, 3, 4)
    ops = [h.choose(OPS) for _ in range(2)]
    if n >= 3:
        ops.append(h.choose("+", "-", "&&", "==", "??"))
    if n >= 4:
        ops.append(h.choose("*", "-", "||", "<"))
    src = names[0]
    want = [h.el(names[0])]
    for o, x in zip(ops, names[1:]):
        src = src + " " + o + " " + x
        want = want + [BINARY[o], h.el(x)]
    v = h.var(src)
    h.eq(flatten(v), want, "operators and operands in order")


@harness("unary_chains")
def unary_chains(h):
    u1, u2 = h.choose("", "!", "-"), h.choose("", "!", "-")
    o = h.choose(OPS)
    names = {"": [], "!": ["not"], "-": ["minus"]}
    h.assume(u1 + u2 != "")
    v = h.var(f"{u1}a {o} {u2}b")
    h.eq(flatten(v), names[u1] + [h.el("a"), BINARY[o]] + names[u2] + [h.el("b")], "operators and operands in order")


@harness("ternary_chains")
def ternary_chains(h):
    o, p = h.choose(OPS), h.choose("+", "-", "==", "&&", "??")
    v = h.var(f"a {o} b ? c {p} d : e {o} f")
    h.eq(flatten(v), [h.el("a"), BINARY[o], h.el("b"), "?", h.el("c"), BINARY[p], h.el("d"), ":", h.el("e"), BINARY[o], h.el("f")])


@harness("operator_text")
def operator_text(h):
    """Any one or two characters between two operands: either exactly the operator of that spelling, or rejected."""
    o = h.sym(h.choose(1, 2), "=<>=!~&|?+-*/%^@$;,:")
    r = h.parse("var x = a " + o + " b\n")
    known = False
    for name in OPS:
        if o == name:
            h.eq(h.good(r), doc(variables={"x": var(op2(BINARY[name], h.el("a"), h.el("b")))}), "operator " + name)
            known = True
            break
    if not known:
        # two adjacent operators may still be a binary and a unary one
        pairs = [("+-", "add", minus), ("+!", "add", not_), ("*-", "multiply", minus), ("*!", "multiply", not_), ("/-", "divide", minus),
                 ("/!", "divide", not_), ("%-", "modulo", minus), ("%!", "modulo", not_), ("<-", "less_than", minus), ("<!", "less_than", not_),
                 (">-", "greater_than", minus), (">!", "greater_than", not_), ("-!", "substract", not_), ("--", "substract", minus)]
        for name, k, f in pairs:
            if o == name:
                h.eq(h.good(r), doc(variables={"x": var(op2(k, h.el("a"), f(h.el("b"))))}), "operators " + name)
                known = True
                break
    if not known and o == "::":
        h.eq(h.good(r), doc(variables={"x": var(op2("nested_resource_accessor", h.el("a"), h.el("b")))}), "accessor ::")
    elif not known and o == "//":
        h.eq(h.good(r), doc(variables={"x": var(h.el("a"))}), "comment")
    elif not known and o != "=>" and o[0] != "!":
        h.bad(r, "no such operator")


@harness("spacing")
def spacing(h):
    """Spaces around an operator do not matter."""
    o = h.choose(OPS)
    s = h.sym(h.choose(0, 1, 2), "= \t")
    t = h.sym(h.choose(0, 1), "= \t")
    v = h.var("(a)" + s + o + t + "(b)")
    h.eq(v, op2(BINARY[o], h.el("a"), h.el("b")), "spacing")


@harness("literals")
def literals(h):
    """Number and string operands keep their values on their side."""
    o = h.choose(OPS)
    a = h.digits(h.choose(1, 2))
    b = h.sym(h.choose(0, 1), "alnum")
    if h.choose(True, False):
        expect(h, "var", a + " " + o + " '" + b + "'", op2(BINARY[o], int(a), b))
    else:
        expect(h, "var", "'" + b + "' " + o + " " + a, op2(BINARY[o], b, int(a)))


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Operands named or spelled like something the code mentions."""
    w = h.choose(h.words())
    k = h.choose("left", "right", "condition", "negated", "string")
    o = h.choose("==", "-", "&&", "??")
    a = h.opaque()
    if w in ("true", "false", "null"):
        k = "string"
    if k == "left":
        src, v = w + " " + o + " " + a.src, op2(BINARY[o], h.el(w), a.val)
    elif k == "right":
        src, v = a.src + " " + o + " " + w, op2(BINARY[o], a.val, h.el(w))
    elif k == "condition":
        src, v = w + " ? " + a.src + " : " + w, cond(h.el(w), a.val, h.el(w))
    elif k == "negated":
        src, v = "!" + w, not_(h.el(w))
    else:
        src, v = "'" + w + "' " + o + " " + a.src, op2(BINARY[o], w, a.val)
    h.eq(h.var(src), v, "operands")


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Long chains and deep groups around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 60))
    o = h.choose("+", "&&", "??", "-")
    how = h.choose("chain", "left", "right", "not", "ternary", "parentheses")
    d = h.digits(1)
    if how == "chain":
        src, want = "a", [h.el("a")]
        for i in range(n):
            src, want = src + " " + o + " b" + str(i), want + [BINARY[o], h.el("b" + str(i))]
        h.eq(flatten(h.var(src)), want, "operators and operands in order")
        return
    src, v = d, int(d)
    for i in range(n):
        x = "b" + str(i)
        if how == "left":
            src, v = "(" + src + ") " + o + " " + x, op2(BINARY[o], v, h.el(x))
        elif how == "right":
            src, v = x + " " + o + " (" + src + ")", op2(BINARY[o], h.el(x), v)
        elif how == "not":
            src, v = "!" + src, not_(v)
        elif how == "ternary":
            src, v = x + " ? " + x + " : " + src, cond(h.el(x), h.el(x), v)
        else:
            src = "(" + src + ")"
    h.eq(h.var(src), v, "operators and operands in order")


@harness("around_constants")
def around_constants(h):
    """Names and texts that contain one the code itself mentions."""
    spots.constant(h, ["not", "sum", "cond"])


@harness("small_operands")
def small_operands(h):
    """Small and nested values as operands."""
    (a, v), k = spots.small(h), h.el("k")
    how = h.choose("binary", "ternary", "unary")
    if how == "binary":
        o = h.choose(OPS)
        t = BINARY[o]
        a = "(" + a + ")" if a in ("-1", "!k", "k.a", "k[0]") else a  # these reach over the whole chain
        expect(h, "items", "[" + a + " " + o + " k, k " + o + " " + a + ", " + a + " " + o + " " + a + "]", [op2(t, v, k), op2(t, k, v), op2(t, v, v)], o)
        expect(h, "var", a + " " + o + " " + a, op2(t, v, v), o)
    elif how == "unary":
        expect(h, "var", "!" + a, not_(v), "not")
    else:
        a = "(" + a + ")" if a in ("-1", "!k", "k.a", "k[0]") else a
        expect(h, "items", "[" + a + " ? k : j, k ? " + a + " : j, k ? j : " + a + ", " + a + " ? " + a + " : " + a + "]",
               [cond(v, k, h.el("j")), cond(k, v, h.el("j")), cond(k, h.el("j"), v), cond(v, v, v)], "conditional")
