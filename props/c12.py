from props.c01 import wellformed
from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "every path of the five kinds with parts of 1..2 symbolic characters; every one-character replacement, insertion (any character) and deletion "
             "at every position of one path per kind; every truncation; every local path of 0..4 symbolic characters; prefixes of symbolic characters",
    "thorough": "as quick with parts of up to 4 symbolic characters, two-character replacements and insertions and local paths of up to 6 characters",
}
ASSUMPTIONS = ["a path with a scheme contains no quote, backslash, $ or line break (C01 covers the string literal itself)",
               "whether a non-ASCII letter or digit is accepted in a part is left open; if it is, the parts must be exact"]

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
HEX = "0123456789abcdefABCDEF-"


def run(h, path, want, config=True):
    """want: (type, detail), None (must be rejected) or "open"."""
    r = h.parse("module m '" + path + "' = {}\n")
    if want is None:
        h.bad(r, "a malformed module path")
        return
    h.eq(h.good(r, "module path"), doc(modules={"m": module(want[0], want[1], {})}), "module path")


def has_only(s, extra):
    """True: only characters a part may contain; False: one that it may not; None: left open."""
    res = True
    for c in s:
        if c in LETTERS + extra:
            continue
        if c < "\x80" or not c.isalnum():
            return False
        res = None
    return res


def all3(*xs):
    if False in xs:
        return False
    return None if None in xs else True


def spec(p):
    """The documented decomposition of a path, independent of the implementation:
    (type, detail), None for a malformed path, plus whether the verdict is left open."""
    kind = p[:3]
    rest = p[3:]
    if kind == "br:":
        reg, slash, tail = rest.partition("/")
        path, colon, tag = tail.partition(":")
        public = reg == "mcr.microsoft.com"
        if not slash or not colon or not path or not tag:
            return None, False
        name_ok = True
        if not public:
            if not reg.endswith(".azurecr.io"):
                return None, False
            reg = reg[:-11]
            if not reg:
                return None, False
            name_ok = has_only(reg, "")
        ok = all3(name_ok, has_only(path, "/-."), has_only(tag, ".-"))
        return ("bicep_registry", {"full": rest, "registry_name": reg, "path": path, "tag": tag, "public": public}) if ok is not False else None, ok is None
    if kind == "br/" or kind == "ts/":
        alias, colon, tail = rest.partition(":")
        path, colon2, tag = tail.partition(":")
        if not colon or not colon2 or not alias or not path or not tag:
            return None, False
        ok = all3(has_only(alias, "-"), has_only(path, "/-."), has_only(tag, ".-"))
        if ok is False:
            return None, False
        d = {"full": rest, "alias": alias, "path": path, "tag": tag}
        if kind == "br/":
            d["public"] = alias == "public"
            return ("bicep_registry_alias", d), ok is None
        return ("template_spec_alias", d), ok is None
    if kind == "ts:":
        sub, s1, tail = rest.partition("/")
        rg, s2, tail = tail.partition("/")
        nm, colon, ver = tail.partition(":")
        if not s1 or not s2 or not colon or not sub or not rg or not nm or not ver:
            return None, False
        hexa = True
        for c in sub:
            if c not in HEX:
                hexa = None if c > "\x7f" and c.isdigit() else False
                break
        ok = all3(hexa, has_only(rg, ".-()"), has_only(nm, ".-"), has_only(ver, ".-"))
        if ok is False:
            return None, False
        return ("template_spec", {"full": rest, "subscription_id": sub, "resource_group_id": rg, "name": nm, "version": ver}), ok is None
    return ("local", {"full": p, "path": p}), False


def check(h, p):
    want, open_ = spec(p)
    r = h.parse("module m '" + p + "' = {}\n")
    if open_ and not r.ok:
        h.check(True, "left open")
        return
    if want is None:
        h.bad(r, "a malformed module path")
        return
    h.eq(h.good(r, "module path"), doc(modules={"m": module(want[0], want[1], {})}), "module path")


def anychar(h):
    c = h.sym(1, "line")
    h.assume(c not in "'\\$")
    return c


def part(h, extra="", n=None):
    if n is None:
        n = h.choose(1, 2) if not h.thorough() else h.choose(1, 2, 4)
    s = h.sym(n, "ident")
    if extra:
        if h.choose(False, True):
            s = s + h.choose(list(extra)) + (h.sym(1, "ident") if h.choose(True, False) else "")
    return s


@harness("registry")
def registry(h):
    public = h.choose(True, False)
    reg = "mcr.microsoft.com" if public else part(h)
    path, tag = part(h, "/-."), part(h, ".-", 1)
    host = reg if public else reg + ".azurecr.io"
    run(h, "br:" + host + "/" + path + ":" + tag,
        ("bicep_registry", {"full": host + "/" + path + ":" + tag, "registry_name": reg, "path": path, "tag": tag, "public": public}))


@harness("registry_alias")
def registry_alias(h):
    public = h.choose(True, False)
    alias = "public" if public else part(h, "-")
    path, tag = part(h, "/-.", 1), part(h, ".-", 1)
    rest = alias + ":" + path + ":" + tag
    run(h, "br/" + rest, ("bicep_registry_alias", {"full": rest, "alias": alias, "path": path, "tag": tag, "public": public}))


@harness("template_spec")
def template_spec(h):
    sub = h.sym(h.choose(1, 2), "=0123456789abcdefABCDEF") + h.choose("", "-0f", "-A")
    rg, nm, ver = part(h, ".-()", 1), part(h, ".-", 1), part(h, ".-", 1)
    rest = sub + "/" + rg + "/" + nm + ":" + ver
    run(h, "ts:" + rest, ("template_spec", {"full": rest, "subscription_id": sub, "resource_group_id": rg, "name": nm, "version": ver}))


@harness("template_spec_alias")
def template_spec_alias(h):
    alias, path, tag = part(h, "-"), part(h, "/-.", 1), part(h, ".-", 1)
    rest = alias + ":" + path + ":" + tag
    run(h, "ts/" + rest, ("template_spec_alias", {"full": rest, "alias": alias, "path": path, "tag": tag}))


BASES = ["br:mcr.microsoft.com/b/c-d.e:1.0", "br:r1.azurecr.io/b/c:v-2", "br/public:b/c:1", "br/al-i:b.c/d:t", "ts:0aF-9/r(g)_.x/n-m:1.2",
         "ts/al:pa/th:v1"]


@harness("replaced")
def replaced(h):
    """One character of a path replaced by any other."""
    b = h.choose(BASES)
    i = h.choose(range(len(b)))
    c = anychar(h)
    check(h, b[:i] + c + b[i + 1:])


@harness("inserted")
def inserted(h):
    b = h.choose(BASES)
    i = h.choose(range(len(b) + 1))
    c = anychar(h)
    check(h, b[:i] + c + b[i:])


@harness("inserted_two", thorough_only=True)
def inserted_two(h):
    b = h.choose(BASES)
    i = h.choose(range(len(b) + 1))
    c, d = anychar(h), anychar(h)
    check(h, b[:i] + c + d + b[i:])


@harness("deleted")
def deleted(h):
    """One to three characters left out anywhere."""
    b = h.choose(BASES)
    i = h.choose(range(len(b)))
    n = h.choose(1, 2, 3)
    check(h, b[:i] + b[i + n:])


@harness("truncated")
def truncated(h):
    """Every prefix and every suffix of a path, and a doubled part."""
    b = h.choose(BASES)
    i = h.choose(range(1, len(b)))
    check(h, h.choose(b[:i], b[i:], b + b[i:], b[:3] + b[:i]))


@harness("short")
def short(h):
    """Every short path: the kind is decided by the prefix alone."""
    p = ""
    for _ in range(h.choose(0, 1, 2, 3, 4) if not h.thorough() else h.choose(0, 1, 2, 3, 4, 5, 6)):
        p = p + anychar(h)
    check(h, p)


@harness("prefixes")
def prefixes(h):
    """A path that resembles one with a scheme is local unless it starts with the scheme."""
    c = anychar(h)
    t = h.choose("public:b/c:1", "mcr.microsoft.com/b:1", "a/b/c:1", "0/r/n:1")
    p = h.choose("br", "ts")
    check(h, h.choose(p + c + t, c + p + ":" + t, c + p + "/" + t, p.upper() + c + t, p[0] + c + ":" + t, c + p[1] + "/" + t))


@harness("public")
def public(h):
    """public is true for exactly one alias and one registry."""
    n = h.choose(1, 2) if not h.thorough() else h.choose(1, 2, 3)
    i = h.choose(range(6))
    w = "public"
    alias = h.choose(w[:i] + h.sym(n, "ident") + w[i + n:], w[:i] + h.sym(1, "ident") + w[i:], w + "-", "-" + w)
    check(h, h.choose("br/", "ts/") + alias + ":p:t")


@harness("registry_host")
def registry_host(h):
    """Hosts near the public one and near the private ones."""
    hosts = ["mcr.microsoft.com", "r1.azurecr.io"]
    b = h.choose(hosts)
    i = h.choose(range(len(b) + 1))
    m = h.choose("insert", "repeat", "swap")
    if m == "insert":
        host = b[:i] + anychar(h) + b[i:]
    elif m == "repeat":
        host = b[:i] + b[i // 2:]
    else:
        host = b[i:] + b[:i]
    check(h, "br:" + host + "/p:t")


@harness("in_context")
def in_context(h):
    """The reference does not depend on the body, on decorators or on other modules."""
    body, cfg = h.choose(("{}", {}), ("if (k) {}", {"condition": h.el("k"), "config": {}}), ("[for i in k: {}]", loop_array("i", h.el("k"), {})),
                         ("{\n  p: 1\n}", {"p": 1}))
    a, b = h.choose(BASES), h.choose(BASES + ["./x.bicep", "../y/z.bicep", "m:n", "br", "ts"])
    wa, wb = spec(a)[0], spec(b)[0]
    d = h.choose("", "@foo(1)\n")
    h.eq(h.good(h.parse(d + "module m '" + a + "' = " + body + "\nmodule n '" + b + "' = " + body + "\n")), doc(modules={
        "m": module(wa[0], wa[1], cfg, [{"type": "foo", "argument": 1}] if d else None), "n": module(wb[0], wb[1], cfg)}), "two modules")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Names the code itself mentions as parts of a path."""
    w = h.choose(sorted({*h.words(), *[x for x in h.literals() if x.count("'") + x.count("$") + x.count("\\") == 0]}))
    check(h, h.choose(w, "./" + w + ".bicep", "br/" + w + ":p:t", "br/a:" + w + ":t", "br/a:p:" + w, "ts/" + w + ":p:t", "ts/a:" + w + ":" + w,
                      "br:" + w + ".azurecr.io/p:t", "br:" + w + "/p:t", "br:mcr.microsoft.com/" + w + ":t", "br:mcr.microsoft.com/p:" + w,
                      "ts:0/" + w + "/n:v", "ts:0/r/" + w + ":" + w, w + "p:t"))


@harness("local_escapes")
def local_escapes(h):
    """Local paths with escapes or interpolation keep the written text."""
    p = h.sym(h.choose(1, 2, 3) if not h.thorough() else h.choose(2, 3, 4), "line")
    h.assume(wellformed(p))
    p = h.choose("./", "") + h.choose("", "${k}/", "it\\'s") + p
    h.assume(not p.startswith("br:") and not p.startswith("br/") and not p.startswith("ts:") and not p.startswith("ts/"))
    run(h, p, ("local", {"full": p, "path": p}))


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Lengths and numbers of segments around the numbers the code mentions."""
    n = h.choose(h.sizes(1, 260))
    c = h.sym(1, "alnum")
    check(h, h.choose("br/" + c * n + ":p:t", "br/a:" + (c + "/") * n + "p:t", "br/a:p:" + (c + ".") * n + "0", "br:" + c * n + ".azurecr.io/p:t",
                      "br:mcr.microsoft.com/" + (c + "/") * n + "p:t", "ts:" + "0" * n + "/r/n:v", "ts:0/" + c * n + "/n:v", "../" * n + c + ".bicep",
                      "ts/a:" + (c + "/") * n + "p:" + c * n))


@harness("around_constants")
def around_constants(h):
    """Names and texts that contain one the code itself mentions."""
    spots.constant(h, ["local", "public", "tag", "spec"])
