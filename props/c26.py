from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "45 contexts of a value (every declaration, collection, call, operator operand, accessor part, loop part, condition, decorator, lambda and nested resource) against its "
             "value in a variable: 18 written-out shapes, uninterpreted operands inside 33 composite forms, one symbolic character in every hole of 20 forms of "
             "literals and names, texts of 1..2 arbitrary characters, names and literals the code itself mentions; both line number settings; all contexts of a file at once; small values in 45 places",
    "thorough": "as quick with two levels of composite forms, two to three symbolic characters per hole and pairs of contexts",
}
ASSUMPTIONS = ["where something follows the value or the value is an operand it is written in parentheses, since chains group to the right (C04)",
               "the name for directly after a square bracket starts a loop, so it is left out",
               "one property name per object: what a repeated key means is not claimed"]


def K(h):
    return h.el("k")


def loop_(item, source, config, condition=None, kind="array_name"):
    return {"loop_type": {"type": {"array_name": "array", "object_name": "object"}[kind], "detail": {"item_name": item, kind: source}}, "condition": condition, "config": config}


def lam(var_, body):
    return {"type": "lambda_expression", "detail": {"var_1": var_, "expression": body}}


def child(h, v):
    return doc(resources={"r": resource("a/b", "1", {}),
                          "r__c": resource("a/b/d", "1", {"p": v, "depends_on": [h.el("r")]})})


def deco(h, v):
    return [{"type": "foo", "argument": v}]


# contexts beyond POSITIONS: name -> (before, after, document of the value)
MORE = {
    "outer": ("var x = ((", "))\n", lambda h, v: doc(variables={"x": var(v)})),
    "deep": ("var x = [{ a: [", "] }]\n", lambda h, v: doc(variables={"x": var([{"a": [v]}])})),
    "typed": ("var x object = ", "\n", lambda h, v: doc(variables={"x": var(v, type="object")})),
    "filter": ("var x = [for i in k: if (", ") 1]\n", lambda h, v: doc(variables={"x": var(loop_("i", K(h), 1, v))})),
    "source": ("var x = [for i in ", ": 1]\n", lambda h, v: doc(variables={"x": var(loop_("i", v, 1))})),
    "index_source": ("var x = [for (i, j) in ", ": 1]\n",
                     lambda h, v: doc(variables={"x": var({"loop_type": {"type": "array_index", "detail": {"item_name": "i", "index_name": "j", "array_name": v}},
                                                           "condition": None, "config": 1})})),
    "items": ("var x = [for i in items (", "): 1]\n", lambda h, v: doc(variables={"x": var(loop_("i", v, 1, kind="object_name"))})),
    "prop_loop": ("var x = {\n  a: [for i in k: ", "]\n}\n", lambda h, v: doc(variables={"x": var({"a": loop_("i", K(h), v)})})),
    "if_resource": ("resource r 'a/b@1' = if (", ") {\n}\n", lambda h, v: doc(resources={"r": resource("a/b", "1", {"condition": v, "config": {}})})),
    "if_module": ("module m './m' = if (", ") {\n}\n", lambda h, v: doc(modules={"m": local_module("./m", {"condition": v, "config": {}})})),
    "res_loop": ("resource r 'a/b@1' = [for i in k: {\n  p: ", "\n}]\n", lambda h, v: doc(resources={"r": resource("a/b", "1", loop_("i", K(h), {"p": v}))})),
    "mod_loop": ("module m './m' = [for i in k: {\n  p: ", "\n}]\n", lambda h, v: doc(modules={"m": local_module("./m", loop_("i", K(h), {"p": v}))})),
    "lambda": ("var x = map(k, i => ", ")\n", lambda h, v: doc(variables={"x": var(unknown("map", K(h), lam("i", v)))})),
    "filter_fn": ("var x = filter(", ", i => true)\n", lambda h, v: doc(variables={"x": var(fn("filter", input_array=v, expression=lam("i", True)))})),
    "not": ("var x = !(", ")\n", lambda h, v: doc(variables={"x": var(not_(v))})),
    "minus": ("var x = -(", ")\n", lambda h, v: doc(variables={"x": var(minus(v))})),
    "dotted": ("var x = (", ").b\n", lambda h, v: doc(variables={"x": var(prop(v, h.el("b")))})),
    "indexed": ("var x = (", ")[0]\n", lambda h, v: doc(variables={"x": var(index(v, 0))})),
    "nested": ("var x = (", ")::b\n", lambda h, v: doc(variables={"x": var(op2("nested_resource_accessor", v, h.el("b")))})),
    "list_base": ("var x = (", ").listKeys()\n", lambda h, v: doc(variables={"x": var(facc(v, "listKeys"))})),
    "list_arg": ("var x = k.listKeys('1', ", ")\n", lambda h, v: doc(variables={"x": var(facc(K(h), "listKeys", "1", v))})),
    "only_arg": ("var x = foo(", ")\n", lambda h, v: doc(variables={"x": var(unknown("foo", v))})),
    "known_arg": ("var x = contains(k, ", ")\n", lambda h, v: doc(variables={"x": var(fn("contains", container=K(h), item_to_find=v))})),
    "condition": ("var x = (", ") ? 1 : 2\n", lambda h, v: doc(variables={"x": var(cond(v, 1, 2))})),
    "coalesced": ("var x = k ?? ", "\n", lambda h, v: doc(variables={"x": var(op2("coalesce", K(h), v))})),
    "summand": ("var x = (", ") + 1\n", lambda h, v: doc(variables={"x": var(op2("add", v, 1))})),
    "type": ("type t = ", "\n", lambda h, v: doc(types={"t": ctype(v)})),
    "extension": ("extension e with {\n  a: ", "\n} as f\n", lambda h, v: doc(extensions={"e": {"config": {"a": v}, "alias": "f"}})),
    "deco_res": ("@foo(", ")\nresource r 'a/b@1' = {\n}\n", lambda h, v: doc(resources={"r": resource("a/b", "1", {}, False, deco(h, v))})),
    "deco_var": ("@foo(", ")\n@bar()\nvar x = 1\n", lambda h, v: doc(variables={"x": var(1, deco(h, v) + [{"type": "bar"}])})),
    "child": ("resource r 'a/b@1' = {\n  resource c 'd' = {\n    p: ", "\n  }\n}\n", child),
    "second": ("param a int = 1\n\n// b\nvar x = ", "\noutput o int = 1\n",
               lambda h, v: doc(parameters={"a": param("int", 1)}, variables={"x": var(v)}, outputs={"o": output("int", 1)})),
}
ALL = dict(POSITIONS)
ALL.update({("items_loop" if k == "items" else k): v for k, v in MORE.items()})


def same(h, src, pos=None, ln=None, ref=None):
    """The value of src in a context is its value in a variable; both accept it or none does."""
    if pos is None:
        pos = h.choose([p for p in ALL if p != "var"])
    h.assume(not (pos in ("loop", "prop_loop") and src.startswith("if(")))  # reads as a filter there
    a = h.parse("var x = " + src + "\n") if ref is None else ref
    x, y, d = ALL[pos]
    ln = h.choose(False, True) if ln is None else ln
    b = h.parse(x + src + y, add_line_numbers=ln)
    if not a.ok:
        h.check(not b.ok, "what is not a value in a variable is none at " + pos)
        return
    h.check(set(a.value) == {"globals", "variables"} and set(a.value["variables"]) == {"x"}, "one variable")
    h.check(b.ok, "a value in a variable is one at " + pos)
    if b.ok and not ln:
        h.eq(b.value, d(h, a.value["variables"]["x"]["value"]), "value at " + pos, strict=True)
    elif b.ok:
        got = {s: {n: {k: v for k, v in t.items() if k not in ("__start_line__", "__end_line__")} for n, t in ds.items()} for s, ds in b.value.items()}
        h.eq(got, d(h, a.value["variables"]["x"]["value"]), "value with line numbers at " + pos, strict=True)


@harness("shapes")
def shapes(h):
    """Every written-out shape in every context."""
    same(h, h.shape().src)


BIN = ["==", "!=", ">=", "<=", ">", "<", "=~", "!~", "&&", "||", "??", "+", "-", "*", "/", "%"]
FORMS = {
    "bin": lambda h, o: "(k " + h.choose(BIN) + " " + o + ")",
    "bin2": lambda h, o: "((" + o + ") " + h.choose(BIN) + " k)",
    "not": lambda h, o: "(!" + o + ")",
    "minus": lambda h, o: "(-" + o + ")",
    "if": lambda h, o: "(k ? " + o + " : " + o + ")",
    "call": lambda h, o: "foo(" + o + ")",
    "call0": lambda h, o: "foo()",
    "call3": lambda h, o: "foo(1, " + o + ", null)",
    "union": lambda h, o: "union(" + o + ", k)",
    "skip": lambda h, o: "skip(k, " + o + ")",
    "guid": lambda h, o: "guid('a', " + o + ")",
    "sys": lambda h, o: "sys.concat(" + o + ")",
    "resourceId": lambda h, o: "resourceId('a', 'b/c', " + o + ")",
    "dot": lambda h, o: "k.b",
    "dots": lambda h, o: "k.b.c",
    "index": lambda h, o: "k[" + o + "]",
    "list": lambda h, o: "k.listKeys(" + o + ")",
    "nested": lambda h, o: "k::b",
    "mixed": lambda h, o: "k.b[" + o + "].c",
    "array": lambda h, o: "[" + o + ", [" + o + "]]",
    "array_nl": lambda h, o: "[\n  " + o + "\n  // c\n  2\n]",
    "object": lambda h, o: "{ a: " + o + ", 'b-c': { d: " + o + " } }",
    "object_nl": lambda h, o: "{\n  a: " + o + "\n\n  b: 1 // c\n}",
    "loop_in": lambda h, o: "{ a: [for i in k: " + o + "] }",
    "loop_ix": lambda h, o: "{ a: [for (i, j) in " + o + ": if (j > 0) i] }",
    "lambda": lambda h, o: "map(k, i => " + o + ")",
    "lambda2": lambda h, o: "reduce(k, " + o + ", (a, b) => a)",
    "filter": lambda h, o: "filter(" + o + ", i => i)",
    "string": lambda h, o: "'a${k}b${f('c')}'",
    "interpolated": lambda h, o: "'${k}'",
    "interpolated2": lambda h, o: "'${k}${foo('k')}'",
    "interpolated3": lambda h, o: "'${k.b}'",
    "dollar": lambda h, o: "'$${k}'",
    "blank": lambda h, o: "' '",
    "escaped": lambda h, o: "'a\\'b\\\\'",
    "multi": lambda h, o: "'''\na 'b' ${c} // d\n'''",
    "multi2": lambda h, o: "[\n  '''a'''\n  '''b'''\n]",
    "paren": lambda h, o: "((" + o + "))",
}


@harness("composite")
def composite(h):
    """Composite expressions over an uninterpreted operand in every context."""
    o = h.opaque(without=("iffn",))
    same(h, FORMS[h.choose(list(FORMS))](h, o.src), ln=False)


@harness("composite_lines")
def composite_lines(h):
    same(h, FORMS[h.choose(list(FORMS))](h, "kk"), ln=True)


@harness("composite_two", thorough_only=True)
def composite_two(h):
    o = h.opaque(kinds=("ref", "zero", "empty"))
    f, g = h.choose(list(FORMS)), h.choose([f for f in FORMS if f not in ("bin", "bin2")])
    h.assume(f not in ("bin2",))
    same(h, FORMS[g](h, FORMS[f](h, o.src)), ln=False)


HOLES = ["'{}'", "'a{}'", "'{}b'", "'${k}{}'", "'''{}'''", "'''a{}\n'''", "{}x", "x{}", "1{}", "k.{}", "k.x{}", "foo({})", "f{}(1)", "{ {}: 1 }", "{ '{}': 1 }", "[{}]", "k{}k", "'\\{}'",
         "!{}", "k[{}]"]


@harness("characters")
def characters(h):
    """A free character somewhere in a literal or a name: accepted in every context or in none, with the same value."""
    f = h.choose(HOLES)
    s = h.sym(1 if not h.thorough() else h.choose(1, 2), "printable")
    ambiguous(h, s)
    i = f.index("{}")
    same(h, f[:i] + s + f[i + 2:], ln=False)


def ambiguous(h, s):
    """Characters that end the value's place or begin something else are not part of a value."""
    for c in s:
        h.assume(c not in "()[]{},:'\"/#?|=>;@!&\\<*+-%~^`$. \t\r\n" or c == "a")


@harness("free_in_literals")
def free_in_literals(h):
    """Inside quotes every character may stand."""
    n = 2 if h.thorough() else 1
    s = h.sym(n, "any")
    f = h.choose("'{}'", "'a{}c'", "'''{}'''", "'''a{}c'''", "'${'{}'}'", "{ 'a{}': 1 }")
    for c in s:
        h.assume(c not in "'$\\{}\r\n" if n == 2 else c != "'")
    h.assume(not (f.startswith("{") and "{" in s))
    i = f.index("{}")
    same(h, f[:i] + s + f[i + 2:], ln=False)


def merged(h, src, v):
    """One file with the value in every context (each name used once), and its document."""
    text, want = "", doc()
    n = 0
    for p, (x, y, d) in ALL.items():
        if p in ("loop", "prop_loop") and src.startswith("if("):
            continue
        text += x.replace("var x", "var x" + str(n)).replace("param x", "param x" + str(n)).replace("output x", "output x" + str(n)) + src + y.replace("param x", "param x" + str(n)).replace(
            "var x", "var x" + str(n)).replace("resource r ", "resource r" + str(n) + " ") if p not in UNIQUE else ""
        if p in UNIQUE:
            continue
        for s, ds in d(h, v).items():
            for k, a in ds.items():
                if s == "globals":
                    continue
                want.setdefault(s, {})[k + str(n) if k == "x" or (p == "deco_res" and k == "r") else k] = a
        n += 1
    return text, want


UNIQUE = ("second", "if_resource", "res_loop", "child", "if_module", "mod_loop")  # would repeat names


@harness("alike")
def alike(h):
    """Values that Python takes for equal although they differ, in all contexts of one file, and next to each other."""
    a, b = h.choose(spots.ALIKE)
    src = h.choose(a[0], b[0], "[" + a[0] + ", " + b[0] + "]", "{ a: " + b[0] + ", b: " + a[0] + " }", "foo(" + a[0] + ", " + b[0] + ")")
    r = h.good(h.parse("var x = " + src + "\n"), "a value in a variable")
    text, want = merged(h, src, r["variables"]["x"]["value"])
    h.eq(h.good(h.parse(text), "a file with the value in every context"), want, "value in every context", strict=True)


@harness("structured")
def structured(h):
    """Values whose parts are named like something the code mentions, in all contexts of one file."""
    src, v = spots.structured(h)
    text, want = merged(h, src, v)
    h.eq(h.good(h.parse(text), "a file with the value in every context"), want, "value in every context", strict=True)


@harness("everywhere")
def everywhere(h):
    """The value in all contexts of one file."""
    if h.choose(False, True):
        src = h.shape().src
    else:
        o = h.opaque(kinds=("ref", "zero", "empty", "null", "false"))
        src = FORMS[h.choose(list(FORMS))](h, o.src)
    a = h.parse("var x = " + src + "\n")
    h.assume(a.ok)
    text, want = merged(h, src, a.value["variables"]["x"]["value"])
    b = h.good(h.parse(text), "a file with the value in every context")
    h.eq(b, want, "value in every context", strict=True)


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names and literals the code itself mentions, in all contexts of one file."""
    if h.choose(False, True):
        src = "'" + h.choose(h.literals()) + "'"
        h.assume("\r" not in src and "\n" not in src)
    else:
        w = h.choose([x for x in h.words() if x != "for"])
        src = h.choose(w, "'" + w + "'", "'${" + w + "}'", "{ " + w + ": 1 }", "foo('" + w + "', " + w + ")", w + "(k)", "[" + w + "]", "'''" + w + "'''")
    a = h.parse("var x = " + src + "\n")
    if not a.ok:
        same(h, src, h.choose("item", "prop", "arg", "config", "lambda", "body"), False, a)
        return
    text, want = merged(h, src, a.value["variables"]["x"]["value"])
    b = h.good(h.parse(text), "a file with the value in every context")
    h.eq(b, want, "value in every context", strict=True)


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Values as long as the numbers the code mentions."""
    n = h.choose(h.sizes(1, 130))
    c = h.sym(1, "alnum")
    src = h.choose("'" + c * n + "'", "[" + ", ".join(["k"] * n) + "]", "foo(" + ", ".join(["k"] * n) + ")", "k" + ".b" * n, "a" * n)
    same(h, src, h.choose("item", "prop", "arg", "config", "child", "then", "deco", "output"), False)


@harness("small_values")
def small_values(h):
    """Small and nested values in every context, and inside every construct."""
    s, _ = spots.small(h)
    if h.choose(True, False):
        same(h, s, None, h.choose(False, True))
    else:
        same(h, FORMS[h.choose(list(FORMS))](h, s), h.choose("prop", "config", "arg") if h.thorough() else "prop", False)
