from props import c06, c15, c17, spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "every sequence of two of 14 texts (6 of them rejected, at every stage) followed by a third of four, on one parser, two parsers, and fresh ones, with the cache on and "
             "off and line numbers on and off; results modified throughout between parses; every built-in function with every argument count, every decorator, "
             "every value shape in 6 positions and every declaration form parsed, modified and parsed again; symbolic names and values; a parse after any two kinds of declarations and a third piece on the same parser, line numbers on and off",
    "thorough": "as quick with every sequence of three texts, sequences of four over eight texts and every position",
}
ASSUMPTIONS = ["the parser tables Lark builds are taken to be the same with and without its file cache in the encoding; the replay of each path on the "
               "unmodified package uses the real cache"]


def wreck(x):
    """Modify every mutable part of a result."""
    if type(x) is dict:
        for k in list(x):
            wreck(x[k])
            x[k] = "changed"
        x["added"] = 1
    elif type(x) is list:
        for y in x:
            wreck(y)
        x.append("added")
        x.insert(0, "added")


def parts(x, acc):
    if type(x) is dict:
        acc[id(x)] = x
        for v in x.values():
            parts(v, acc)
    elif type(x) is list:
        acc[id(x)] = x
        for v in x:
            parts(v, acc)
    return acc


def texts(h, kinds=None):
    """(text, expected result or None)"""
    n = name(h, 1)
    d = h.sym(1, "digit")
    o = h.shape(kinds=kinds or ("arr", "obj", "fn", "add", "str", "ref"))
    return [
        ("var " + n + " = " + d + "\n", doc(variables={n: var(int(d))})),
        ("param p string = " + o.src + "\n", doc(parameters={"p": param("string", o.val)})),
        ("import " + n + " from 'f'\n", doc(imports={n: {"file_path": "f"}})),
        ("resource p 'a/b@1' = {\n resource " + n + " 'y' = {\n  a: " + o.src + "\n }\n}\n",
         doc(resources={"p": resource("a/b", "1", {}), "p__" + n: resource("a/b/y", "1", {"a": o.val, "depends_on": [h.el("p")]})})),
        ("targetScope = 'tenant'\nextension e\n", doc("tenant", extensions={"e": {}})),
        ("", doc()),
        ("@secure()\n@foo(" + o.src + ")\nparam p " + n + "[]\n", doc(parameters={"p": param({"type": "array", "item_type": n}, None,
                                                                                   [{"type": "secure"}, {"type": "foo", "argument": o.val}])})),
        ("func f(a int) string => foo(a, " + o.src + ")\nmodule m './m' = {}\n", doc(functions={"f": func({"a": "int"}, "string", unknown("foo", h.el("a"), o.val))},
                                                                               modules={"m": local_module("./m", {})})),
        ("import " + n + " from 'f'\nvar x =\n", None),
        ("import " + n + " from 'f'\ntargetScope = 'nowhere'\n", None),
        ("resource p 'a/b@1' = {\n resource " + n + " 'y' = {\n }\n}\nresource q 'a' = {}\n", None),
        ("resource p 'a/b' = {\n resource " + n + " 'y' = {\n }\n}\n", None),
        ("import " + n + " from 'f'\nmodule m 'br:x' = {}\n", None),
        ("var x = '''" + n + "\n", None),
    ]


def with_lines(want, r):
    """Compare without the line number entries (C15 covers them)."""
    return {s: {n: {k: v for k, v in a.items() if k not in ("__start_line__", "__end_line__")} for n, a in ds.items()} for s, ds in r.items()}


def judge(h, r, want, ln=False):
    if want is None:
        h.bad(r, "still rejected")
    else:
        v = h.good(r, "still accepted")
        h.eq(with_lines(want, v) if ln else v, want, "the result of its own text alone")


@harness("sequences")
def sequences(h):
    """The third parse is not affected by the first two, whatever they were."""
    ts = texts(h, None if h.thorough() else ("obj",))
    i, j = h.choose(range(len(ts))), h.choose(range(len(ts)))
    k = h.choose(range(len(ts))) if h.thorough() else h.choose(0, 2, 3, 5)
    how = h.choose("one parser", "two parsers")
    p = h.parser()
    q = p if how == "one parser" else h.parser()
    r1, r2, r3 = h.parse(ts[i][0], parser=p), h.parse(ts[j][0], parser=q), h.parse(ts[k][0], parser=p)
    judge(h, r1, ts[i][1])
    judge(h, r2, ts[j][1])
    judge(h, r3, ts[k][1])


@harness("four", thorough_only=True)
def four(h):
    ts = texts(h, ("arr",))
    ts = [ts[x] for x in (0, 2, 3, 6, 8, 9, 10, 13)]
    p = h.parser(add_line_numbers=h.choose(False, True))
    ln = p.add_line_numbers
    for _ in range(4):
        t, w = h.choose(ts)
        judge(h, h.parse(t, parser=p), w, ln)


@harness("settings")
def settings(h):
    """Cache and line number settings of one parser do not reach another; the cache changes nothing."""
    ts = texts(h, ("obj",))
    (t1, w1) = ts[h.choose(0, 3, 5, 6, 9)]
    (t2, w2) = ts[h.choose(4, 6, 10)] if not h.thorough() else h.choose(ts)
    ca, cb = h.choose((True, True), (False, True), (True, False), (False, False))
    a = {"add_line_numbers": h.choose(False, True), "cache": ca}
    b = {"add_line_numbers": h.choose(False, True), "cache": cb}
    p, q = h.parser(**a), h.parser(**b)
    r1, r2 = h.parse(t1, parser=p), h.parse(t2, parser=q)
    r3 = h.parse(t1, parser=p)
    judge(h, r1, w1, a["add_line_numbers"])
    judge(h, r2, w2, b["add_line_numbers"])
    judge(h, r3, w1, a["add_line_numbers"])
    for r, s in ((r1, a), (r2, b), (r3, a)):
        if r.ok:
            for sec in r.value.values():
                for at in sec.values():
                    h.check(("__start_line__" in at) == s["add_line_numbers"], "line numbers as set for this parser")


@harness("modified")
def modified(h):
    """Modifying a result changes neither another result nor a later parse."""
    ts = [t for t in texts(h, None if h.thorough() else ("arr", "fn")) if t[1] is not None]
    (t1, w1), (t2, w2) = h.choose(ts), h.choose(ts)
    ln = h.choose(False, True)
    p = h.parser(add_line_numbers=ln)
    q = p if h.choose(True, False) else h.parser(add_line_numbers=ln)
    r1, r2, r3 = h.parse(t1, parser=p), h.parse(t2, parser=q), h.parse(t1, parser=p)
    a, b, c = parts(h.good(r1), {}), parts(h.good(r2), {}), parts(h.good(r3), {})
    h.check(not (set(a) & set(b)) and not (set(a) & set(c)) and not (set(b) & set(c)), "results share no mutable part")
    wreck(r1.value)
    judge(h, r2, w2, ln)
    judge(h, r3, w1, ln)
    wreck(r2.value)
    judge(h, h.parse(t1, parser=q), w1, ln)
    judge(h, h.parse(t2, parser=p), w2, ln)


def again(h, text, want):
    """Parse, modify the result, parse again (same and other parser)."""
    p = h.parser()
    r = h.parse(text, parser=p)
    h.eq(h.good(r), want, "first parse")
    a = parts(r.value, {})
    r2 = h.parse(text, parser=p)
    h.check(not (set(a) & set(parts(h.good(r2), {}))), "results share no mutable part")
    wreck(r.value)
    h.eq(r2.value, want, "the result parsed before the change")
    h.eq(h.good(h.parse(text, parser=p)), want, "a parse after the change")
    h.eq(h.good(h.parse(text, parser=h.parser())), want, "another parser after the change")


@harness("functions")
def functions(h):
    nm = h.choose(list(c06.T))
    n = h.choose([c for c in c06.counts(h, nm) if c <= 4])
    m = h.choose(range(n)) if n > 1 else 0
    args = [h.opaque(kinds=("arr", "fn") if j == m else ("ref",)) for j in range(n)]
    again(h, "var x = " + nm + "(" + ", ".join(a.src for a in args) + ")\n", doc(variables={"x": var(c06.expected(nm, [a.val for a in args]))}))


@harness("decorators")
def decorators(h):
    from props.c08 import HOSTS, WITH, WITHOUT

    n = h.choose(list(WITH) + list(WITHOUT) + ["foo", ""])
    host = h.choose(list(HOSTS))
    t, d = HOSTS[host]
    if n == "":
        again(h, t, d([]))
    elif n in WITHOUT:
        again(h, "@" + n + "()\n" + t, d([{"type": WITHOUT[n]}]))
    else:
        a = h.opaque(kinds=("ref", "str", "int", "earr", "obj", "fn"))
        again(h, "@" + n + "(" + a.src + ")\n" + t, d([{"type": WITH.get(n, n), "argument": a.val}]))


@harness("values")
def values(h):
    """Every shape of value, written twice."""
    a = h.shape()
    pos = h.choose(["var", "param", "items", "prop", "config", "deco"] if not h.thorough() else list(POSITIONS))
    t, w = embed(h, pos, a.src, a.val)
    again(h, t, w)


@harness("accessors")
def accessors(h):
    o = h.opaque(kinds=("ref",))
    t, v = h.choose(("k.listKeys(" + o.src + ", 1)", facc(h.el("k"), "listKeys", o.val, 1)), ("k.getSecret()", facc(h.el("k"), "getSecret")),
                    ("k[" + o.src + "]", index(h.el("k"), o.val)), ("k::" + o.src, op2("nested_resource_accessor", h.el("k"), o.val)),
                    ("k ? " + o.src + " : []", cond(h.el("k"), o.val, [])), ("[for i in " + o.src + ": {}]", loop_array("i", o.val, {})))
    again(h, "var x = " + t + "\n", doc(variables={"x": var(v)}))


@harness("declarations")
def declarations(h):
    d = c15.decls(h, 1)[h.choose(c15.NAMES)]()
    w = doc()
    w.setdefault(d.section, {})[d.nm] = d.attrs
    again(h, d.src + "\n", w)


@harness("trees")
def trees(h):
    """create_tree between parses changes nothing, and is itself repeatable."""
    ts = texts(h, ("arr",))
    (t1, w1), (t2, _) = h.choose(ts), h.choose(ts)
    ln = h.choose(False, True)
    p = h.parser(add_line_numbers=ln)
    a = h.tree(text=t2, parser=p)
    r = h.parse(t1, parser=p)
    judge(h, r, w1, ln)
    if r.ok:
        for sec in r.value.values():
            for at in sec.values():
                h.check(("__start_line__" in at) == ln and ("__end_line__" in at) == ln, "line numbers as set for this parser")
    b = h.tree(text=t2, parser=p)
    h.check(a.ok == b.ok, "the tree again")
    if a.ok:
        h.eq(b.value, a.value, "the tree again")


@harness("settings_after")
def settings_after(h):
    """Line numbers stay on or off over any history of parses, trees and failures."""
    ln = h.choose(False, True)
    p = h.parser(add_line_numbers=ln, cache=h.choose(True, False) if h.thorough() else True)
    ts = texts(h, ("arr",))
    if not h.thorough():
        ts = [ts[x] for x in (0, 3, 5, 8, 10, 13)]
    for _ in range(2):
        (t, w) = h.choose(ts)
        k = h.choose("parse", "tree", "both arguments")
        if k == "parse":
            h.parse(t, parser=p)
        elif k == "tree":
            h.tree(text=t, parser=p)
        else:
            h.run(lambda: p.parse(text=t, file_path=h.file(t)))
    r = h.parse("\n@foo()\nvar a = 1\nimport b from 'f'\n", parser=p)
    want = doc(variables={"a": var(1, [{"type": "foo"}])}, imports={"b": {"file_path": "f"}})
    if ln:
        for at, x, y in ((want["globals"]["scope"], 0, 0), (want["variables"]["a"], 2, 3), (want["imports"]["b"], 4, 4)):
            at["__start_line__"], at["__end_line__"] = x, y
    h.eq(h.good(r), want, "the setting of the parser")


@harness("same_text_twice")
def same_text_twice(h):
    """The same declarations written twice in one file under other names do not share parts either."""
    a = h.shape(kinds=("earr", "arr", "eobj", "obj", "fn", "not", "add"))
    dec = h.choose("", "@allowed(" + a.src + ")\n")
    ds = [{"type": "allowed", "argument": a.val}] if dec else []
    t = dec + "param x object = " + a.src + "\n" + dec + "param y object = " + a.src + "\n"
    r = h.good(h.parse(t))
    wreck(r["parameters"]["x"])
    h.eq(r["parameters"]["y"], param("object", a.val, ds), "the other declaration")


@harness("input_objects")
def input_objects(h):
    """Equal texts are parsed alike, with other parses between them."""
    s = h.sym(2, "alnum")
    t = "var x = '" + s + "'\n"
    p = h.parser()
    u = h.sym(2, "alnum")
    h.eq(h.good(h.parse(t, parser=p)), doc(variables={"x": var(s)}))
    h.eq(h.good(h.parse("var x = '" + u + "'\n", parser=p)), doc(variables={"x": var(u)}))
    h.eq(h.good(h.parse(t, parser=p)), doc(variables={"x": var(s)}))


@harness("related_texts")
def related_texts(h):
    """A name or text, wherever it stands, after a parse that met one easily taken for it."""
    a, b = spots.related(h)
    f = spots.SPOTS[h.choose(list(spots.SPOTS))]
    ts = []
    for w in (a, b):
        src, sec, key, attrs = f(h, w, "zz")
        ts.append((src, doc(**{sec: {key: attrs}})))
    p = h.parser()
    q = p if h.choose(True, False) or not h.thorough() else h.parser()
    for t, p_ in ((ts[0], p), (ts[1], q), (ts[0], p)) if h.thorough() else ((ts[0], p), (ts[1], q)):
        h.eq(h.good(h.parse(t[0], parser=p_)), t[1], "the result of its own text alone")


@harness("alike_values")
def alike_values(h):
    """A value, wherever it stands, after a parse that met one Python takes for equal."""
    from props.c26 import ALL

    a, b = spots.alike(h)
    x, y, d = ALL[h.choose(list(ALL))]
    p = h.parser()
    for s, v in (a, b):
        h.eq(h.good(h.parse(x + s + y, parser=p)), d(h, v(h)), "the result of its own text alone")


@harness("alike_parts")
def alike_parts(h):
    """A type or decorators after a parse that met ones easily taken for them."""
    p = h.parser(add_line_numbers=h.choose(False, True) if h.thorough() else False)
    for f in spots.alike_parts(h):
        src, sec, key, attrs = f(h, "zz")
        judge(h, h.parse(src, parser=p), doc(**{sec: {key: attrs}}), p.add_line_numbers)


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names and texts the code itself mentions, parsed, modified and parsed again."""
    w = h.choose(h.words())
    k = h.choose("var", "resource", "key", "deco", "import", "type") if h.thorough() else h.choose("var", "resource", "deco")
    t, d = {
        "var": lambda: ("var " + w + " = '" + w + "'\n", doc(variables={w: var(w)})),
        "resource": lambda: ("resource " + w + " '" + w + "@1' = {\n resource c 'y' = {\n }\n}\n",
                             doc(resources={w: resource(w, "1", {}), w + "__c": resource(w + "/y", "1", {"depends_on": [h.el(w)]})})),
        "key": lambda: ("param p object = {\n  " + w + ": []\n}\n", doc(parameters={"p": param("object", {w: []})})),
        "deco": lambda: ("@foo('" + w + "')\nparam p " + w + "[]\n", doc(parameters={"p": param({"type": "array", "item_type": w}, None, [{"type": "foo", "argument": w}])})),
        "import": lambda: ("import " + w + " as " + w + " from '" + w + "'\n", doc(imports={w: {"file_path": w, "alias": w}})),
        "type": lambda: ("type " + w + " = [\n  '" + w + "'\n]\n", doc(types={w: ctype([w])})),
    }[k]()
    again(h, t, d)


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of parses with one parser around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 130))
    p = h.parser(add_line_numbers=h.choose(False, True))
    d = h.digits(1)
    keep = []
    for i in range(n):
        r = h.parse("import n" + str(i) + " from 'f'\nvar v" + str(i) + " = [" + d + "]\n", parser=p)
        keep.append(r)
        h.bad(h.parse("resource r 'a' = {}\n", parser=p))
    for i, r in enumerate(keep):
        judge(h, r, doc(imports={"n" + str(i): {"file_path": "f"}}, variables={"v" + str(i): var([int(d)])}), p.add_line_numbers)


@harness("everything_before")
def everything_before(h):
    """A parse after one of two or three kinds of declarations at once, with line numbers on and off."""
    ln = h.choose(False, True)
    p = h.parser(add_line_numbers=ln)
    kids = ("resource p 'a/b@1' = {\n  resource q 'c' = {\n  }\n}\n",)
    a, b = h.choose(range(len(c15.NAMES) + 1)), h.choose(range(len(c15.NAMES) + 1))
    src = lambda i, j: kids[0] if i == len(c15.NAMES) else c15.decls(h, j)[c15.NAMES[i]]().src + "\n"
    c = h.choose("", "@foo(1)\nparam z int\n", "import 'n'\n", "var z = 1 1\n")
    h.parse(src(a, 1) + src(b, 2) + c, parser=p)
    r = h.good(h.parse("import u from 'f'\n@d()\nvar v = 1\n", parser=p))
    want = doc(imports={"u": {"file_path": "f"}}, variables={"v": var(1, [{"type": "d"}])})
    if ln:
        for at, x, y in ((want["globals"]["scope"], 0, 0), (want["variables"]["v"], 2, 3), (want["imports"]["u"], 1, 1)):
            at["__start_line__"], at["__end_line__"] = x, y
    h.eq(r, want, "a later parse")
