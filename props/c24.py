from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "lambdas of one to four variables with symbolic names of 1..2 characters and names that read like keywords or built-ins, uninterpreted and every written-out body, as every argument "
             "of built-in and unknown calls and accessor calls, nested up to three deep, in 18 value positions; every written-out non-name in place of a variable; a body that calls each function with the variables; small values in bodies",
    "thorough": "as quick with up to seven variables, names of up to 4 characters and pairs of written-out bodies",
}
ASSUMPTIONS = ["operator chains group to the right without precedence (see C04), so a lambda after an operator is that operator's operand",
               "parentheses around a single variable name carry no entry"]


def lam(body, *names):
    return {"type": "lambda_expression", "detail": {**{f"var_{i + 1}": n for i, n in enumerate(names)}, "expression": body}}


WORDS = ["param", "for", "in", "if", "existing", "from", "as", "items", "sys", "az", "filter", "trueish", "nullable", "falsey", "resource", "list", "listKeys", "getSecret", "_"]


def nm(h, big=2):
    if h.choose(False, True):
        return h.choose(WORDS)
    return name(h, h.choose(1, big if not h.thorough() else 4))


def head(h, names):
    """The variables as they are written."""
    if len(names) == 1:
        o, c = h.choose(("", ""), ("(", ")"), ("( ", " )"))
        return o + names[0] + c
    return "(" + h.choose(", ", ",").join(names) + ")"


ARROWS = [" => ", "=>", " /* => 1 */ => "]


@harness("one_variable")
def one_variable(h):
    n = nm(h)
    o = h.opaque()
    src, val = head(h, [n]) + h.choose(ARROWS) + o.src, lam(o.val, n)
    expect(h, h.choose("var", "arg", "paren", "item"), src, val, "lambda")


@harness("variables")
def variables(h):
    k = h.choose(2, 3, 4) if not h.thorough() else h.choose(2, 3, 4, 5, 7)
    names = [name(h, 1) for _ in range(k - 1)]
    names.insert(h.choose(0, k - 1), nm(h, 1))
    o = h.opaque()
    expect(h, h.choose("var", "arg"), head(h, names) + h.choose(ARROWS) + o.src, lam(o.val, *names), "lambda")


@harness("positions_all")
def positions_all(h):
    n, m = name(h, 1), name(h, 1)
    two = h.choose(False, True)
    o = h.opaque()
    p = h.choose(list(POSITIONS))
    # a lambda body takes everything after it: parenthesised where something follows
    src = ("(" + n + ", " + m + ")" if two else n) + " => " + o.src
    if p in ("left", "then"):
        src = "(" + src + ")"
    if p == "param":
        h.assume(not (two and False))
    expect(h, p, src, lam(o.val, n, m) if two else lam(o.val, n), "lambda")


@harness("bodies")
def bodies(h):
    """Every written-out body."""
    n, m = name(h, 1), name(h, 1)
    s = h.shape()
    two = h.choose(False, True)
    expect(h, h.choose("var", "arg", "items", "prop"), ("(" + n + ", " + m + ")" if two else n) + " => " + s.src, lam(s.val, n, m) if two else lam(s.val, n), "lambda")


@harness("body_uses_variable")
def body_uses_variable(h):
    n = nm(h, 2)
    o = h.opaque()
    v = h.el(n)
    h.assume(n != "sys" and n != "az")  # sys. and az. name the built-in namespaces
    src, val = h.choose(
        (n, v), ("[" + n + ", " + o.src + "]", [v, o.val]), ("{ a: " + n + " }", {"a": v}), (n + ".id", prop(v, h.el("id"))), (n + "[" + o.src + "]", index(v, o.val)), ("foo(" + n + ", " + o.src + ")", unknown("foo", v, o.val)),
        (n + " == " + o.src, op2("equals", v, o.val)), ("!" + n, not_(v)), ("'${" + n + "}'", "${" + n + "}"), ("empty(" + n + ")", fn("empty", item_to_test=v)), ("(" + n + ")", v), (n + " ? " + o.src + " : 1", cond(v, o.val, 1)))
    expect(h, h.choose("var", "arg"), head(h, [n]) + " => " + src, lam(val, n), "lambda")


CALLS = [
    ("filter(k, {})", lambda h, l: fn("filter", input_array=h.el("k"), expression=l)),
    ("sys.filter(k, {})", lambda h, l: fn("filter", input_array=h.el("k"), expression=l)),
    ("map(k, {})", lambda h, l: unknown("map", h.el("k"), l)), ("sys.map(k, {})", lambda h, l: unknown("sys.map", h.el("k"), l)),
    ("reduce(k, 0, {})", lambda h, l: unknown("reduce", h.el("k"), 0, l)), ("sort(k, {})", lambda h, l: unknown("sort", h.el("k"), l)),
    ("toObject(k, {}, b)", lambda h, l: unknown("toObject", h.el("k"), l, h.el("b"))), ("f({})", lambda h, l: unknown("f", l)),
    ("f({}, {})", lambda h, l: unknown("f", l, l)), ("first({})", lambda h, l: fn("first", arg_1=l)), ("union({}, k)", lambda h, l: fn("union", arg_1=l, arg_2=h.el("k"))),
    ("contains(k, {})", lambda h, l: fn("contains", container=h.el("k"), item_to_find=l)),
    ("k.listKeys({}, 1)", lambda h, l: facc(h.el("k"), "listKeys", l, 1)), ("k.filter(b, {})", lambda h, l: prop(h.el("k"), fn("filter", input_array=h.el("b"), expression=l))),
    ("f(\n{},\n 1\n)", lambda h, l: unknown("f", l, 1)),
]


@harness("arguments")
def arguments(h):
    """As any argument of a call: a lambda ends at the comma or bracket after its body."""
    t, d = h.choose(CALLS)
    n, m = nm(h, 1), name(h, 1)
    o = h.opaque()
    two = h.choose(False, True)
    src, val = ("(" + n + ", " + m + ") => " + o.src, lam(o.val, n, m)) if two else (n + " => " + o.src, lam(o.val, n))
    p = h.choose("var", "prop", "items") if h.thorough() else h.choose("var", "items")
    expect(h, p, t.replace("{}", "\0").replace("\0", src), d(h, val), "lambda argument")


@harness("nested")
def nested(h):
    """A lambda in the body of another, directly and in a call; variables may share names."""
    a, b, c = name(h, 1), name(h, 1), name(h, 1)
    o = h.opaque()
    k = h.choose("direct", "three", "call", "array", "object", "paren", "two")
    src, val = {
        "direct": (a + " => " + b + " => " + o.src, lam(lam(o.val, b), a)),
        "three": (a + " => (" + b + ", " + c + ") => " + c + " => " + o.src, lam(lam(lam(o.val, c), b, c), a)),
        "call": (a + " => map(" + b + ", " + c + " => " + o.src + ")", lam(unknown("map", h.el(b), lam(o.val, c)), a)),
        "array": (a + " => [" + b + " => " + o.src + ", " + c + "]", lam([lam(o.val, b), h.el(c)], a)),
        "object": (a + " => { p: " + b + " => " + o.src + "\n q: " + c + " => 1 }", lam({"p": lam(o.val, b), "q": lam(1, c)}, a)),
        "paren": (a + " => (" + b + " => " + o.src + ")", lam(lam(o.val, b), a)),
        "two": ("map(filter(" + a + ", " + b + " => " + o.src + "), " + c + " => " + a + ")", unknown("map", fn("filter", input_array=h.el(a), expression=lam(o.val, b)), lam(h.el(a), c))),
    }[k]
    expect(h, h.choose("var", "arg", "prop"), src, val, "nested lambdas")


@harness("two_lambdas")
def two_lambdas(h):
    """Lambdas beside each other keep their own variables and bodies."""
    a, b, c = name(h, 1), name(h, 1), name(h, 1)
    o, p = h.opaque(), h.opaque()
    l1, v1 = a + " => " + o.src, lam(o.val, a)
    l2, v2 = "(" + b + ", " + c + ") => " + p.src, lam(p.val, b, c)
    src, val = h.choose(("f(" + l1 + ", " + l2 + ")", unknown("f", v1, v2)), ("f(" + l2 + ", " + l1 + ")", unknown("f", v2, v1)), ("[" + l1 + "\n" + l2 + "\n]", [v1, v2]), ("{\n x: " + l2 + "\n y: " + l1 + "\n}", {"x": v2, "y": v1}),
                        ("k ? " + l1 + " : " + l2, cond(h.el("k"), v1, v2)))
    expect(h, "var", src, val, "two lambdas")


@harness("operators")
def operators(h):
    """In brackets a lambda is an operand like any other."""
    a = name(h, 1)
    o, p = h.opaque(), h.opaque()
    l, v = "(" + a + " => " + o.src + ")", lam(o.val, a)
    src, val = h.choose((l + " == " + p.src, op2("equals", v, p.val)), (p.src + " ?? " + l, op2("coalesce", p.val, v)), (l + "[" + p.src + "]", index(v, p.val)), ("!" + l, not_(v)), (l + " ? " + p.src + " : " + l, cond(v, p.val, v)),
                        (p.src + " ? " + l + " : 1", cond(p.val, v, 1)))
    expect(h, "var", src, val, "lambda operand")


@harness("not_a_name")
def not_a_name(h):
    """Anything but a name in the place of a variable is rejected."""
    s = h.shape(without=("ref", "paren"))
    n = name(h, 1)
    o = h.opaque()
    v = h.choose("(" + s.src + ")", "(" + n + ", " + s.src + ")", "(" + s.src + ", " + n + ")", "('" + n + "')", "'" + n + "'", "(" + n + ", '" + n + "')", "1", "(true, " + n + ")", "null", "([" + n + "])", "{}", "(" + n + ", )", "(, " + n + ")", "(" + n + " " + n + ")", "()",
                 "(" + n + ": int)", "(" + n + " = 1)")
    host, after = h.choose(("var x = ", "\n"), ("var x = map(k, ", ")\n"), ("var x = filter(k, ", ")\n"), ("var x = [\n", "\n]\n"))
    h.bad(h.parse(host + v + " => " + o.src + after), "a lambda variable that is no name")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names the code itself mentions as variables and bodies."""
    w = h.choose(h.words())
    h.assume(w not in ("true", "false", "null"))
    o = h.opaque()
    src, val = h.choose((w + " => " + o.src, lam(o.val, w)), ("(" + w + ") => " + w, lam(h.el(w), w)), ("(a, " + w + ") => " + o.src, lam(o.val, "a", w)), ("(" + w + ", a, " + w + ") => '" + w + "'", lam(w, w, "a", w)),
                        ("a => { " + w + ": " + o.src + " }", lam({w: o.val}, "a")))
    expect(h, h.choose("var", "arg", "prop"), src, val, "lambda")


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of variables and of nested lambdas around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 60))
    o = h.opaque()
    k = h.choose("variables", "same", "nested")
    if k == "nested":
        src, val = o.src, o.val
        for i in reversed(range(n)):
            src, val = "v" + str(i) + " => " + src, lam(val, "v" + str(i))
    else:
        vs = ["v" + str(i) if k == "variables" else "v" for i in range(n)]
        src, val = "(" + ", ".join(vs) + ") => " + o.src, lam(o.val, *vs)
    expect(h, h.choose("var", "arg"), src, val, "lambda")


@harness("lengths_in_the_code")
def lengths_in_the_code(h):
    """Variable names as long as the numbers the code mentions."""
    n = h.choose(h.sizes(1, 1101))
    w = "q" * n + h.sym(1, "letter")
    o = h.opaque()
    src, val = h.choose((w + " => " + o.src, lam(o.val, w)), ("(" + w + ", b) => " + o.src, lam(o.val, w, "b")), ("(a, " + w + ") => " + w, lam(h.el(w), "a", w)))
    expect(h, h.choose("var", "arg", "prop"), src, val, "lambda")


@harness("around_constants")
def around_constants(h):
    """Names and texts that contain one the code itself mentions."""
    spots.constant(h, ["lambda", "lambda2"])


@harness("small_parts")
def small_parts(h):
    """Small and nested values as body and next to the lambda."""
    s, v = spots.small(h)
    n, m = h.choose(("a",), ("a", "b")), h.choose("map", "foo", "filter", "reduce", "sort")
    l = lam(v, *n)
    src = h.choose(", ".join(n) if len(n) > 1 else n[0], None) if len(n) == 1 else None
    t = (src if src is not None else "(" + ", ".join(n) + ")") + " => " + s
    if m == "filter":
        expect(h, "var", "filter(" + s + ", " + t + ")", fn("filter", input_array=v, expression=l), "lambda")
    elif m == "reduce":
        expect(h, "var", "reduce(k, " + s + ", " + t + ")", unknown("reduce", h.el("k"), v, l), "lambda")
    else:
        expect(h, "var", m + "(" + s + ", " + t + ")", unknown(m, v, l), "lambda")


@harness("body_calls")
def body_calls(h):
    """A body that hands the variables to a function."""
    from props import c06

    f = h.choose(list(c06.T))
    n = h.choose([c for c in c06.counts(h, f) if c < 5] or [0])
    names = h.choose(["k"], ["v", "w"], [name(h, 1)])
    args = [names[i % len(names)] for i in range(n)]
    src = f + "(" + ", ".join(args) + ")"
    at = h.choose(("{}", lambda l: l), ("map(k, {})", lambda l: unknown("map", h.el("k"), l)), ("filter(k, {})", lambda l: fn("filter", input_array=h.el("k"), expression=l)))
    expect(h, "var", at[0].replace("{}", ("(" + ", ".join(names) + ")" if len(names) > 1 else names[0]) + " => " + src), at[1](lam(c06.expected(f, [h.el(a) for a in args]), *names)), "lambda")
