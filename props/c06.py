from props import spots
from props.common import *
from symx.harness import harness

BOUNDS = {
    "quick": "all documented functions, bare and with their namespace; every number of arguments from the smallest to the largest the function "
             "takes (variadic ones: up to 12); uninterpreted arguments; every written-out argument shape in every slot for every function; small and structured values in every slot of every function",
    "thorough": "as quick; variadic functions up to 16 arguments; every pair of written-out shapes for functions of two or more arguments; 18 positions",
}
ASSUMPTIONS = ["the slot table in this file states the documented parameter names (docs/capabilities.md and the tests of the repository)"]

# name -> (namespace, type, slots); '?' marks an optional slot that is none when not written,
# '*' at the end a repeated slot numbered from the given start
T = {}


def _t(ns, table):
    for nm, (typ, slots) in table.items():
        T[nm] = (ns, typ, slots.split())


_t("sys", {
    "any": ("any", "value"),
    "array": ("array", "convert_to_array"),
    "concat": ("concat", "arg_1 arg_*2"),
    "contains": ("contains", "container item_to_find"),
    "empty": ("empty", "item_to_test"),
    "first": ("first", "arg_1"),
    "flatten": ("flatten", "array_to_flattern"),
    "intersection": ("intersection", "arg_1 arg_2 arg_*3"),
    "last": ("last", "arg_1"),
    "length": ("length", "arg_1"),
    "max": ("max", "arg_1 arg_*2"),
    "min": ("min", "arg_1 arg_*2"),
    "range": ("range", "start_index count"),
    "skip": ("skip", "original_value number_to_skip"),
    "take": ("take", "original_value number_to_take"),
    "union": ("union", "arg_1 arg_2 arg_*3"),
    "dateTimeAdd": ("date_time_add", "base duration ?format"),
    "dateTimeFromEpoch": ("date_time_from_epoch", "epoch_time"),
    "dateTimeToEpoch": ("date_time_to_epoch", "date_time"),
    "utcNow": ("utc_now", "?format"),
    "loadFileAsBase64": ("load_file_as_base64", "file_path"),
    "loadJsonContent": ("load_json_content", "file_path ?json_path ?encoding"),
    "loadTextContent": ("load_text_content", "file_path ?encoding"),
    "loadYamlContent": ("load_yaml_content", "file_path ?path_filter ?encoding"),
    "filter": ("filter", "input_array expression"),
    "bool": ("bool", "arg_1"),
    "int": ("int", "value_to_convert"),
    "json": ("json", "arg_1"),
    "base64": ("base64", "input_string"),
    "base64ToJson": ("base64_to_json", "base64_value"),
    "base64ToString": ("base64_to_string", "base64_value"),
    "dataUri": ("data_uri", "string_to_convert"),
    "dataUriToString": ("data_uri_to_string", "data_uri_to_convert"),
    "endsWith": ("ends_with", "string_to_search string_to_find"),
    "format": ("format", "format_string arg_*1"),
    "guid": ("guid", "base_string extra_string_*1"),
    "indexOf": ("index_of", "string_to_search string_to_find"),
    "join": ("join", "input_array delimiter"),
    "lastIndexOf": ("last_index_of", "string_to_search string_to_find"),
    "newGuid": ("new_guid", ""),
    "padLeft": ("pad_left", "value_to_pad total_length ?padding_character"),
    "replace": ("replace", "original_string old_string new_string"),
    "split": ("split", "input_string delimiter"),
    "startsWith": ("starts_with", "string_to_search string_to_find"),
    "string": ("string", "value_to_convert"),
    "substring": ("substring", "string_to_parse start_index ?length"),
    "toLower": ("to_lower", "string_to_change"),
    "toUpper": ("to_upper", "string_to_change"),
    "trim": ("trim", "string_to_trim"),
    "uniqueString": ("unique_string", "base_string extra_string_*1"),
    "uri": ("uri", "base_uri relative_uri"),
    "uriComponent": ("uri_component", "string_to_encode"),
    "uriComponentToString": ("uri_component_to_string", "uri_encoded_string"),
})
_t("az", {
    "deployment": ("deployment", ""),
    "environment": ("environment", ""),
    "extensionResourceId": ("extension_resource_id", "resource_id resource_type resource_name_1 ?resource_name_2 resource_name_*3"),
    "listKeys": ("list_func", "resource_identifier api_version"),
    "managementGroupResourceId": ("management_group_resource_id", "resource_type resource_name_1 ?resource_name_2 resource_name_*3"),
    "pickZones": ("pick_zones", "provider_namespace resource_type location ?number_of_zones ?offset"),
    "reference": ("reference", "resource_identifier ?api_version ?full"),
    "resourceId": ("resource_id", ""),
    "subscriptionResourceId": ("subscription_resource_id", ""),
    "tenantResourceId": ("tenant_resource_id", "resource_type resource_name_1 ?resource_name_2 resource_name_*3"),
    "managementGroup": ("management_group", "?identifier"),
    "resourceGroup": ("resource_group", ""),
    "subscription": ("subscription", "?subscription_id"),
    "tenant": ("tenant", ""),
})
NO_PARAMETERS = {"deployment", "environment", "newGuid", "tenant"}
# functions whose slots depend on the number of arguments
BY_COUNT = {
    "resourceGroup": {0: "?resource_group_name ?subscription_id", 1: "resource_group_name ?subscription_id",
                      2: "subscription_id resource_group_name"},
    "resourceId": {2: "resource_type resource_name_1 ?resource_name_2 ?resource_group_name ?subscription_id",
                   3: "resource_type resource_name_1 resource_name_2 ?resource_group_name ?subscription_id",
                   4: "resource_group_name resource_type resource_name_1 resource_name_2 ?subscription_id",
                   **{n: "subscription_id resource_group_name resource_type " + " ".join(f"resource_name_{i}" for i in range(1, n - 2))
                      for n in range(5, 17)}},
    "subscriptionResourceId": {2: "resource_type resource_name_1 ?resource_name_2 ?subscription_id",
                               3: "resource_type resource_name_1 resource_name_2 ?subscription_id",
                               **{n: "subscription_id resource_type " + " ".join(f"resource_name_{i}" for i in range(1, n - 1))
                                  for n in range(4, 17)}},
}


def counts(h, nm):
    if nm in BY_COUNT:
        return [n for n in BY_COUNT[nm] if n <= (16 if h.thorough() else 12)]
    slots = T[nm][2]
    lo = len([s for s in slots if s[0] != "?" and "*" not in s])
    hi = len([s for s in slots if "*" not in s])
    if any("*" in s for s in slots):
        hi = max(hi + 1, 16 if h.thorough() else 12)
    return list(range(lo, hi + 1))


def expected(nm, args):
    ns, typ, slots = T[nm]
    if nm in NO_PARAMETERS:
        return {"function": {"type": typ}}
    if nm in BY_COUNT:
        slots = BY_COUNT[nm][len(args)].split()
    params = {}
    rest = list(args)
    for s in slots:
        if "*" in s:
            stem, start = s.split("*")
            for i, a in enumerate(rest):
                params[stem + str(int(start) + i)] = a
            rest = []
        elif rest:
            params[s.removeprefix("?")] = rest.pop(0)
        else:
            assert s[0] == "?", (nm, s)
            params[s[1:]] = None
    assert not rest, nm
    if nm == "listKeys":
        params["func_name"] = "listKeys"
    return {"function": {"type": typ, "parameters": params}}


def written(h, nm):
    return h.choose("", T[nm][0] + ".") + nm


QUICK = ["var", "prop", "deco", "loop"]


@harness("slots")
def slots(h):
    """Every argument under its slot, whatever the arguments are."""
    nm = h.choose(list(T))
    n = h.choose(counts(h, nm))
    args = [h.opaque() for _ in range(n)]
    src = written(h, nm) + "(" + ", ".join([a.src for a in args]) + ")"
    expect(h, "var", src, expected(nm, [a.val for a in args]), nm)


@harness("shapes")
def shapes(h):
    """Every written-out argument in every slot."""
    nm = h.choose(list(T))
    cs = [n for n in counts(h, nm) if n and n <= 5]
    if not cs:
        h.assume(False)
    n = h.choose(cs)
    at = h.choose(range(n))
    a = h.shape()
    args, srcs = [], []
    for i in range(n):
        if i == at:
            srcs.append(a.src)
            args.append(a.val)
        else:
            o = h.opaque()
            srcs.append(o.src)
            args.append(o.val)
    expect(h, "var", nm + "(" + ", ".join(srcs) + ")", expected(nm, args), nm)


@harness("shape_pairs", thorough_only=True)
def shape_pairs(h):
    nm = h.choose(list(T))
    cs = [n for n in counts(h, nm) if 2 <= n <= 5]
    if not cs:
        h.assume(False)
    n = h.choose(cs)
    i = h.choose(range(n - 1))
    a, b = h.shape(), h.shape()
    srcs, args = [], []
    for j in range(n):
        o = a if j == i else b if j == i + 1 else h.opaque()
        srcs.append(o.src)
        args.append(o.val)
    expect(h, "var", nm + "(" + ", ".join(srcs) + ")", expected(nm, args), nm)


@harness("literals")
def literals(h):
    """Literal arguments keep their text and value."""
    nm = h.choose("contains", "resourceGroup", "replace", "guid", "resourceId", "padLeft", "reference", "loadJsonContent", "pickZones")
    n = max([c for c in counts(h, nm) if c <= 4])
    args, srcs = [], []
    for i in range(n):
        if h.choose(True, False):
            s = h.sym(h.choose(0, 1), "alnum")
            srcs.append("'" + s + "'")
            args.append(s)
        else:
            d = h.digits(1)
            srcs.append(d)
            args.append(int(d))
    expect(h, "var", nm + "(" + ",".join(srcs) + ")", expected(nm, args), nm)



@harness("places")
def places(h):
    """Calls at every place."""
    nm = h.choose("concat", "empty", "resourceGroup", "newGuid", "substring", "subscription", "contains")
    n = h.choose(counts(h, nm)[:3])
    args = [h.opaque() for _ in range(n)]
    src = written(h, nm) + "(" + ", ".join([a.src for a in args]) + ")"
    expect(h, positions(h, QUICK + ["param", "items", "arg", "right", "config", "then"]), src, expected(nm, [a.val for a in args]), nm)


@harness("nested")
def nested(h):
    """A call as an argument of a call."""
    f, g = h.choose("concat", "contains", "resourceId", "any", "guid"), h.choose("empty", "union", "resourceGroup", "format", "tenant")
    n, m = counts(h, f)[0] or 1, h.choose(counts(h, g)[:3])
    at = h.choose(range(n))
    inner = [h.opaque() for _ in range(m)]
    isrc, iv = g + "(" + ", ".join([a.src for a in inner]) + ")", expected(g, [a.val for a in inner])
    srcs, args = [], []
    for i in range(n):
        if i == at:
            srcs.append(isrc)
            args.append(iv)
        else:
            o = h.opaque()
            srcs.append(o.src)
            args.append(o.val)
    expect(h, "var", f + "(" + ", ".join(srcs) + ")", expected(f, args), "nested call")


@harness("spelled")
def spelled(h):
    """Spaces and line breaks between the arguments do not matter."""
    s = h.sym(h.choose(0, 1, 2), "= \t")
    nl = h.choose("", "\n", "\r\n", "\n\n")
    a, b = h.opaque(), h.opaque()
    expect(h, "var", "contains(" + nl + s + a.src + s + "," + nl + s + b.src + nl + s + ")", expected("contains", [a.val, b.val]), "spacing")


@harness("accessor_on_call")
def accessor_on_call(h):
    nm = h.choose("resourceGroup", "subscription", "reference", "deployment", "first", "split")
    n = h.choose(counts(h, nm))
    args = [h.opaque() for _ in range(n)]
    p = name(h, 2)
    src = written(h, nm) + "(" + ", ".join([a.src for a in args]) + ")"
    v = expected(nm, [a.val for a in args])
    if h.choose(True, False):
        expect(h, "var", src + "." + p, prop(v, h.el(p)), "property of a call")
    else:
        d = h.digits(1)
        expect(h, "var", src + "[" + d + "]", index(v, int(d)), "item of a call")


@harness("constants_in_the_code")
def constants_in_the_code(h):
    """Every function with texts and names the code itself mentions as arguments."""
    nm = h.choose(list(T))
    cs = [c for c in counts(h, nm) if 0 < c <= 4]
    h.assume(len(cs) > 0)
    q = h.choose("'", "")
    w = h.choose(h.words() if not q else sorted({*h.words(), *[t for t in h.literals() if not any(c in t for c in "'\\$")]}))
    h.assume(w not in ("true", "false", "null"))
    arg, v = q + w + q, w if q else h.el(w)
    expect(h, "var", "[\n" + "\n".join([nm + "(" + ", ".join([arg] * n) + ")" for n in cs]) + "\n]", [expected(nm, [v] * n) for n in cs], "built-in")


@harness("sizes_in_the_code")
def sizes_in_the_code(h):
    """Variadic functions with as many arguments, and texts as long, as the numbers the code mentions."""
    n = h.choose(h.sizes(1, 260))
    nm = h.choose(list(T))
    cs = counts(h, nm)
    c = h.sym(1, "letter")
    if any("*" in s for s in T[nm][2]) and n >= min(cs) and h.choose(True, False):
        args = ["k" + str(i) for i in range(n - 1)] + [c]
        expect(h, "var", nm + "(" + ", ".join(args) + ")", expected(nm, [h.el(a) for a in args]), nm)
        return
    cs = [x for x in cs if 0 < x <= 4]
    h.assume(len(cs) > 0)
    m = max(cs)
    w = c + "q" * (n - 1)
    at = h.choose(range(m))
    q = h.choose("'", "")
    srcs = [q + w + q if i == at else "k" for i in range(m)]
    expect(h, "var", nm + "(" + ", ".join(srcs) + ")", expected(nm, [(w if q else h.el(w)) if i == at else h.el("k") for i in range(m)]), nm)


@harness("around_constants")
def around_constants(h):
    """Names and texts that contain one the code itself mentions."""
    spots.constant(h, ["known"])


@harness("small_arguments")
def small_arguments(h):
    """Small and nested values in every slot of every function."""
    nm = h.choose([t for t in T if any(0 < c <= 5 for c in counts(h, t))])
    n = h.choose([c for c in counts(h, nm) if 0 < c <= 5])
    at = h.choose([*range(n), None] if n > 1 else [0])
    srcs, vals = [], []
    for a, v in spots.SMALL:
        if "for " in a:
            continue
        srcs.append(nm + "(" + ", ".join(a if at in (i, None) else "k" for i in range(n)) + ")")
        vals.append(expected(nm, [v(h) if at in (i, None) else h.el("k") for i in range(n)]))
    expect(h, "items", "[" + ", ".join(srcs) + "]", vals, nm)
