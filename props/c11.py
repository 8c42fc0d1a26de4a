from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "one parent with one child in every position among 0..2 other properties; nesting to depth 3; child and parent plain, existing or "
             "conditional, child looped; declared depends_on lists of 0..2 entries; symbolic names, types and versions of 1..2 characters; "
             "uninterpreted property values and every written-out shape next to the child; two parents with equally named children; two and three siblings",
    "thorough": "as quick with depth 5, names, types and versions of up to 4 symbolic characters and every combination of position and form",
}
ASSUMPTIONS = ["a resource is not declared both nested under parent p as c and on top level as p__c",
               "a property named depends_on, where a nested resource declares one, is an array"]


class Node:
    """A resource to be written and what is expected of it."""

    def __init__(self, nm, type_, api=None, existing=False, before=(), after=(), child=None, form="plain", deps=None):
        self.nm, self.type_, self.api, self.existing, self.before, self.after, self.child, self.form, self.deps = \
            nm, type_, api, existing, before, after, child, form, deps

    def src(self, h, top=True):
        body = "{\n"
        for k, o in self.before:
            body = body + k + ": " + o.src + "\n"
        if self.deps is not None:
            body = body + "depends_on: [" + ", ".join(self.deps) + "]\n"
        if self.child is not None:
            body = body + self.child.src(h, False)
        for k, o in self.after:
            body = body + k + ": " + o.src + "\n"
        body = body + "}"
        if self.form == "if":
            body = "if (q) " + body
        elif self.form == "for":
            body = "[for i in q: " + body + "]"
        at = "" if self.api is None else "@" + self.api
        return "resource " + self.nm + " '" + self.type_ + at + "'" + (" existing" if self.existing else "") + " = " + body + "\n"

    def want(self, h, out, parent=None, ptype=None, papi=None):
        props = {k: o.val for k, o in self.before}
        deps = None if self.deps is None else [h.el(d) for d in self.deps]
        if deps is not None:
            props["depends_on"] = deps
        for k, o in self.after:
            props[k] = o.val
        nm = self.nm if parent is None else parent + "__" + self.nm
        type_ = self.type_ if ptype is None else ptype + "/" + self.type_
        api = papi if self.api is None else self.api
        config = props
        if self.form == "if":
            config = {"condition": h.el("q"), "config": props}
        elif self.form == "for":
            config = loop_array("i", h.el("q"), props)
        if parent is not None:
            config["depends_on"] = list(config.get("depends_on", [])) + [h.el(parent)]
        out[nm] = resource(type_, api, config, self.existing)
        if self.child is not None:
            self.child.want(h, out, nm, type_, api)
        return out


def run(h, *nodes, tail=""):
    text = ""
    want = {}
    for n in nodes:
        text = text + n.src(h)
        for k, v in n.want(h, {}).items():
            h.assume(k not in want)
            want[k] = v
    h.eq(h.good(h.parse(text + tail), "nested resources"), doc(resources=want), "every resource, hoisted")


def tname(h, n):
    t = h.sym(n, "printable")
    h.assume("'" not in t and "\\" not in t and "$" not in t and "@" not in t)
    return t


def lens(h):
    return h.choose(1, 2) if not h.thorough() else h.choose(1, 2, 3, 4)


@harness("names")
def names(h):
    """Full name, type and version are put together from the written texts."""
    c = Node(name(h, lens(h)), tname(h, lens(h)), existing=h.choose(False, True))
    run(h, Node(name(h, lens(h)), tname(h, lens(h)), tname(h, lens(h)), h.choose(False, True), child=c))


@harness("own_version")
def own_version(h):
    """A nested resource that carries a version keeps it, and hands it to its own children."""
    g = Node("g", "z", h.choose(None, "3"))
    c = Node("c", tname(h, 1), tname(h, h.choose(1, 2)), child=h.choose(None, g))
    run(h, Node("p", "a/b", tname(h, 1), child=c))


@harness("two_ats")
def two_ats(h):
    """A nested type string with two @ is rejected."""
    h.bad(h.parse("resource p 'a/b@1' = {\nresource c '" + tname(h, 1) + "@" + tname(h, h.choose(0, 1)) + "@" + tname(h, 1) + "' = {\n}\n}\n"),
          "two @ in a nested type")


@harness("positions")
def where(h):
    """The child may stand anywhere in the body; the other properties stay as they are."""
    nb, na = h.choose(0, 1, 2), h.choose(0, 1, 2)
    before = [(k, h.opaque()) for k in ["a", "b"][:nb]]
    after = [(k, h.opaque()) for k in ["c", "d"][:na]]
    cb = [(k, h.opaque()) for k in ["a", "e"][: h.choose(0, 1, 2)]]
    c = Node("c", "y", before=cb, existing=h.choose(False, True))
    run(h, Node("p", "a/b", "1", before=before, after=after, child=c, existing=h.choose(False, True)))


@harness("keys")
def keys(h):
    """Properties of parent and child that have the same or symbolic names do not mix."""
    k, l = name(h, h.choose(1, 2)), name(h, h.choose(1, 2))
    c = Node("c", "y", before=[(k, h.opaque())])
    if h.choose(True, False):
        run(h, Node("p", "a/b", "1", before=[(l, h.opaque())], child=c))
    else:
        run(h, Node("p", "a/b", "1", after=[(l, h.opaque())], child=c))


@harness("shapes")
def shapes(h):
    """Whatever stands in front of, behind and inside the child."""
    a = h.shape()
    w = h.choose("before", "after", "inside")
    c = Node("c", "y", before=[("e", a)] if w == "inside" else [("e", h.opaque())])
    run(h, Node("p", "a/b", "1", before=[("a", a)] if w == "before" else (), after=[("b", a)] if w == "after" else (), child=c))


@harness("forms")
def forms(h):
    """Conditional parents and children, looped children."""
    deps = [None, [], ["u"], ["u", "w"]]
    c = Node("c", "y", before=[("e", h.opaque())], form=h.choose("plain", "if", "for"), deps=h.choose(deps), existing=h.choose(False, True))
    run(h, Node("p", "a/b", "1", before=[("a", h.opaque())], form=h.choose("plain", "if"), deps=h.choose(deps), child=c,
                existing=h.choose(False, True)))


@harness("dependencies")
def dependencies(h):
    """The parent comes after the dependencies the child declares; similar keys are ordinary properties."""
    n = h.choose(0, 1, 2, 3)
    deps = [name(h, 1) for _ in range(n)]
    x = h.opaque()
    k = h.choose(None, "dependsOn", "Depends_on", "depends_on_", "__child_resource__")
    c = Node("c", "y", before=[(k, x)] if k and k != "__child_resource__" else (), deps=deps if n or h.choose(True, False) else None)
    run(h, Node("p", "a/b", "1", child=c))


@harness("depth")
def depth(h):
    """Recursively, with siblings of another kind at each level."""
    n = h.choose(2, 3) if not h.thorough() else h.choose(2, 3, 4, 5)
    nm = [name(h, 1) for _ in range(n)]
    node = None
    for i in reversed(range(n)):
        o = [("p", h.opaque())]
        first = h.choose(True, False)
        node = Node(nm[i], "t" + str(i), "7" if i == 0 else None, existing=h.choose(False, True) if i else False, child=node,
                    before=o if first else (), after=() if first else o,
                    form=h.choose("plain", "if") if n < 4 or i == 0 else "plain")
    run(h, node)


@harness("two_parents")
def two_parents(h):
    """Children of different parents keep apart, also with equal names; declarations after them are seen."""
    a, b, c, d = name(h, 1), name(h, 1), name(h, 1), name(h, 1)
    p = Node(a, "a/b", "1", child=Node(c, "y", before=[("e", h.opaque())]))
    q = Node(b, "a/b", "2", before=[("f", h.opaque())], child=h.choose(None, Node(d, "y")))
    if h.choose(True, False):
        run(h, p, q)
    else:
        run(h, q, p)


@harness("surroundings")
def surroundings(h):
    """Blank lines and comments around the child."""
    gap = ["", "\n", "\n\n", "// c\n", "\r\n", "  // resource x 'y' = {}\n"]
    a, b = h.choose(gap), h.choose(gap)
    e, f = h.opaque(), h.opaque()
    t = "resource p 'a/b@1' = {\n  e: " + e.src + "\n" + a + "  resource c 'y' = {\n" + a + "    f: " + f.src + "\n" + b + "  }\n" + b + "}\n"
    h.eq(h.good(h.parse(t)), doc(resources={
        "p": resource("a/b", "1", {"e": e.val}),
        "p__c": resource("a/b/y", "1", {"f": f.val, "depends_on": [h.el("p")]})}), "hoisted")


@harness("siblings")
def siblings(h):
    """Several children of one parent are each reported."""
    n = h.choose(2, 3)
    vals = [h.opaque() for _ in range(n)]
    nm = ["c", "d", "e"][:n]
    sep = h.choose("", "  k: 1\n")
    t = "resource p 'a/b@1' = {\n"
    for x, v in zip(nm, vals):
        t = t + sep.replace("k", "k" + x) + "  resource " + x + " 'y" + x + "' = {\n    f: " + v.src + "\n  }\n"
    par = resource("a/b", "1", {"k" + x: 1 for x in nm} if sep else {})
    kids = {"p__" + x: resource("a/b/y" + x, "1", {"f": v.val, "depends_on": [h.el("p")]}) for x, v in zip(nm, vals)}
    h.eq(h.good(h.parse(t + "}\n")), doc(resources={"p": par, **kids}), "every sibling", known="nested-siblings",
         wrong=doc(resources={"p": par, "p__" + nm[-1]: kids["p__" + nm[-1]]}))


@harness("references")
def references(h):
    """A nested resource is referenced by :: without any effect on what is hoisted."""
    a = h.opaque()
    t = "resource p 'a/b@1' = {\n  resource c 'y' = {\n    f: " + a.src + "\n  }\n}\noutput o string = p::c.id\n"
    h.eq(h.good(h.parse(t)), doc(
        resources={"p": resource("a/b", "1", {}), "p__c": resource("a/b/y", "1", {"f": a.val, "depends_on": [h.el("p")]})},
        outputs={"o": output("string", op2("nested_resource_accessor", h.el("p"), prop(h.el("c"), h.el("id"))))}), "hoisted")


@harness("not_nested")
def not_nested(h):
    """A property called resource is a property, not a nested resource."""
    a = h.opaque()
    k = h.choose("resource", "resource_", "resources", "'resource'", "'__child_resource__'", "__child_resource")
    b = h.choose(True, False)
    c = "  resource c 'y' = {\n  }\n" if b else ""
    want = {"p": resource("a/b", "1", {k: a.val})}
    if b:
        want["p__c"] = resource("a/b/y", "1", {"depends_on": [h.el("p")]})
    h.eq(h.good(h.parse("resource p 'a/b@1' = {\n  " + k + ": " + a.src + "\n" + c + "}\n")), doc(resources=want), "hoisted")


@harness("reserved_key")
def reserved_key(h):
    """A property with the name the transformer uses for nested resources."""
    a = h.opaque(without=("obj",))
    r = h.parse("resource p 'a/b@1' = {\n  __child_resource__: " + a.src + "\n}\n")
    h.check(r.ok, "a property named __child_resource__")
    if r.ok:
        h.eq(r.value, doc(resources={"p": resource("a/b", "1", {"__child_resource__": a.val})}))


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names, types, versions and keys the code itself mentions."""
    w = h.choose(h.words())
    o = h.opaque()
    k = h.choose("child", "parent", "both", "type", "key", "value")
    key_ = w if k == "key" and w != "depends_on" else "a"
    q = V("'" + w + "'", w)
    g = h.choose(None, Node(w if k in ("child", "both") else "g", w if k == "type" else "z", before=[(key_ + "_", q), (key_, o)]))
    c = Node(w if k in ("child", "both") else "c", w if k == "type" else "y", before=[(key_, o)] if g is None else [], child=g)
    run(h, Node(w if k in ("parent", "both") else "p", w if k == "type" else "a/b", w if k == "type" else "1",
                after=[(key_ + "_", q), (key_, o)] if k in ("key", "value") else [], child=c))


class V:
    def __init__(self, src, val):
        self.src, self.val = src, val


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Numbers of properties around a nested resource, and depths, around the numbers the code mentions."""
    n = h.choose(h.sizes(0, 60))
    o = h.opaque()
    props = [("p" + str(i), o) for i in range(n)]
    k = h.choose("before", "after", "depth", "deps")
    if k == "depth":
        h.assume(n < 40)
        c = None
        for i in range(n):
            c = Node("c" + str(n - i), "t" + str(n - i), child=c)
        run(h, Node("p", "a/b", "1", child=c))
    elif k == "deps":
        run(h, Node("p", "a/b", "1", child=Node("c", "y", deps=["d" + str(i) for i in range(n)])))
    else:
        run(h, Node("p", "a/b", "1", before=props if k == "before" else (), after=props if k == "after" else (), child=Node("c", "y")))


@harness("related_names")
def related_names(h):
    """Names, types and versions of parent and child that contain one another."""
    n, t, v = name(h, 1), tname(h, 1), tname(h, 1)
    p, c, g = h.choose((n, n, n), (n, n + "__c", n + "__" + n), (n, "__" + n, n + "__"), (n + "__c", "c", n), (n + "__c", n + "__c", "c"), (n, n + "_", "_"), (n + "__" + n, n, n))
    pt, ct, gt = h.choose((t, t, t), (t, t + "/c", t + "/" + t), ("a/" + t, "a", "a/" + t), ("a/" + t, "a/" + t + "/c", "a/" + t + "/c/d"), (t + "/" + t, t, t), ("a", "A", "a"), ("a/b", "b", "b/c"))
    pv, cv, gv = h.choose((v, None, None), (v, v, None), (v, v + "0", v), (v, None, v), (v + "0", v, None))
    run(h, Node(p, pt, pv, child=Node(c, ct, cv, existing=h.choose(False, True), child=h.choose(None, Node(g, gt, gv)))))


KEYS = ["name", "parent", "scope", "location", "properties", "tags", "dependsOn", "sku", "kind", "identity", "existing", "type", "apiVersion", "condition", "config", "decorators", "batchSize"]


@harness("levels")
def levels(h):
    """Well-known properties, forms and versions on every level do not change another level."""
    at = h.choose(0, 1, 2)
    key_ = h.choose(KEYS)
    val = h.choose(V("k", h.el("k")), V("'n'", "n"), V("p", h.el("p")))
    how = h.choose("plain", "existing", "version", "if", "deps")
    node = None
    for i in (2, 1, 0):
        on = i == at
        node = Node("pcg"[i], ("a/b", "y", "z")[i], "1" if i == 0 else "2" if on and how == "version" else None, existing=on and how == "existing", before=[(key_, val)] if on or how == "plain" else [("q", val)],
                    child=node, form="if" if on and how == "if" else "plain", deps=["k"] if on and how == "deps" and i else None)
    run(h, node)
