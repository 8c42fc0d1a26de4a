"""Not a property: Python and regular-expression idioms run symbolically and compared with the real run of each witness (./check SELFCHECK)."""
from props.common import *
from symx.harness import harness, Result
import re, itertools, functools, operator, collections, string
BOUNDS={"quick":"x","thorough":"x"}
F=[]
def I(f): F.append(f); return f
@I
def a1(s,t): return dict.fromkeys([s,t],1)
@I
def a2(s,t): return list(map(str.upper,[s,t]))
@I
def a3(s,t): return [c for c in s if c.isdigit()]
@I
def a4(s,t): return list(itertools.takewhile(str.isalpha,s))
@I
def a5(s,t): return "".join(reversed(s))
@I
def a6(s,t): return s.translate({ord("a"):"b"})
@I
def a7(s,t): return s.translate(str.maketrans("ab","xy"))
@I
def a8(s,t): return sorted([s,t,"b"])
@I
def a9(s,t): return max(s,t)
@I
def a10(s,t): return {s:1,t:2}.get("aa",3)
@I
def a11(s,t): return len({s,t})
@I
def a12(s,t): return collections.Counter(s+t).get("a",0)
@I
def a13(s,t): return collections.OrderedDict([(s,1),(t,2)]).get("aa")
@I
def a14(s,t):
    d=collections.defaultdict(list); d[s].append(1); d[t].append(2); return sorted(map(len,d.values()))
@I
def a15(s,t): return functools.reduce(lambda a,b:a+b,[s,t],"")
@I
def a16(s,t):
    match s:
        case "ab"|"ba": return 1
        case x if x==t: return 2
        case str(): return 3
@I
def a17(s,t):
    match [s,t]:
        case ["aa",y]: return y
        case [x,"bb"]: return x
        case _: return None
@I
def a18(s,t):
    match {"k":s}:
        case {"k":"ab"}: return 1
        case _: return 0
@I
def a19(s,t): return re.sub(r"[a-c]+","<\\g<0>>",s)
@I
def a20(s,t): return re.split(r"[a0]",s)
@I
def a21(s,t): return re.split(r"([a0])",s)
@I
def a22(s,t): return [m.group() for m in re.finditer(r"a|0",s+t)]
@I
def a23(s,t): return re.escape(s)
@I
def a24(s,t): return s<t, s<="b", s>t
@I
def a25(s,t): return s[::-1], s[-1], s[0:1]
@I
def a26(s,t): return "%s-%5s|{}".format(s) % (s,t) if "%" not in s and "{" not in s and "}" not in s else None
@I
def a27(s,t): return f"{s!s:>5}|{t:<4}|"
@I
def a28(s,t): return f"{s!r}"
@I
def a29(s,t): return repr(s)
@I
def a30(s,t): return s*2, s+t, t.join([s,s])
@I
def a31(s,t): return any(c in "ab" for c in s), all(c not in t for c in s)
@I
def a32(s,t): return s.title(), s.capitalize()
@I
def a33(s,t): return s.zfill(4), s.ljust(3,"x"), s.center(5)
@I
def a34(s,t): return ord(s[0])
@I
def a35(s,t): return int(s,16) if all(c in "0123456789abcdef" for c in s) else -1
@I
def a36(s,t): return int(s) if s.isdecimal() and s.isascii() else -1
@I
def a37(s,t): return s.encode().decode()
@I
def a38(s,t): return list(zip(s,t))
@I
def a39(s,t): return [(k,len(list(g))) for k,g in itertools.groupby(s+t)]
@I
def a40(s,t): return list(filter("ab".__contains__,s))
@I
def a41(s,t): return operator.itemgetter(0)(s), operator.methodcaller("upper")(s)
@I
def a42(s,t): return {"a":1}.setdefault(s,2)
@I
def a43(s,t):
    d={}; d[s]=1; d[t]=2
    return list(d.values())
@I
def a44(s,t): return s in {"aa","ab"}, s in ["aa"], s in ("bb",), s in "xaby", s in {"aa":1}
@I
def a45(s,t): return s.splitlines(), s.split(), s.rsplit("a",1), s.partition("a"), s.rpartition("b")
@I
def a46(s,t): return s.expandtabs(), s.swapcase()
@I
def a47(s,t): return hash(s)==hash(t) and s==t
@I
def a48(s,t): return (lambda x: x.lower()=="ab")(s)
@I
def a49(s,t): return next((i for i,c in enumerate(s) if c=="a"),-1)
@I
def a50(s,t): return min([s,t],key=len), sorted([s,t],key=str.lower)
@I
def a51(s,t): return functools.lru_cache(lambda x:x+"!")(s)
@I
def a52(s,t):
    @functools.cache
    def f(x): return x.upper()
    return f(s),f(t)
@I
def a53(s,t): return string.Template("$x").substitute(x=s)
@I
def a54(s,t): return s.startswith(("a","b")), s.endswith(t), s.removeprefix("a"), s.strip("ab")
@I
def a55(s,t): return [s,t].index("aa") if "aa" in [s,t] else -1
@I
def a56(s,t): return [s,t]==["aa","bb"], (s,t)==(t,s), {"x":s}=={"x":"aa"}
@I
def a57(s,t): return s is t, s == t, s != t
@I
def a58(s,t): return {**{s:1},**{t:2},"aa":3}
@I
def a59(s,t): return {s:1}|{t:2}
@I
def a60(s,t): 
    d={s:1}; d|={t:2}; return d
@I
def a61(s,t): return {s}|{t,"aa"}
@I
def a62(s,t): return bool(s.strip()), not s.strip()
@I
def a63(s,t): return list({s:1}.keys() & {"aa":1}.keys())
@I
def a64(s,t):
    x = s.find("a"); return s[x:] if ~x else t
@I
def a65(s,t):
    if (m := re.match("(?P<q>[a-z])(.)?", s)) is None: return None
    return m["q"], m[2], m.lastgroup, m.start("q"), m.groupdict()
@I
def a66(s,t):
    return re.compile("a(b)?").sub(lambda m: m.group(1) or "_", s)
@I
def a67(s,t):
    out=[]
    for ch in s:
        if "0"<=ch<="9": out.append(1)
        elif ch=="_" or ch.isalpha(): out.append(2)
        else: out.append(3)
    return out
@I
def a68(s,t):
    it=iter(s); return next(it), next(it,None), next(it,"end")
@I
def a69(s,t):
    a,*b=s; return a,b
@I
def a70(s,t): return [k for k in ("aa","bb") if k == s or k.startswith(t[:1])]
@I
def a71(s,t): return str.join("-",[s,t]), str.replace(s,"a","zz"), str.count(s,"a")
@I
def a72(s,t):
    import enum
    class E(str,enum.Enum):
        A="aa"; B="ab"
    try: return E(s).name
    except ValueError: return None
@I
def a73(s,t):
    import dataclasses
    @dataclasses.dataclass
    class P:
        x: str
        y: str
    return P(s,t)==P("aa","bb"), P(s,t).x
@I
def a74(s,t):
    N=collections.namedtuple("N","x y"); n=N(s,t); return n.x, n==("aa","bb")
@I
def a75(s,t):
    q=collections.deque([s]); q.append(t); return q.popleft(), len(q)
@I
def a76(s,t):
    import bisect; return bisect.bisect(["aa","bb"],s)
@I
def a77(s,t):
    import copy; return copy.deepcopy({"a":[s]})
@I
def a78(s,t):
    import json; return json.dumps([s])
@I
def a79(s,t):
    import textwrap; return textwrap.dedent(s)
@I
def a80(s,t):
    import shlex; return len(s.split(t[0]))
@I
def a81(s,t): return bytes(s,"utf8")==b"aa"
@I
def a82(s,t): return eval("1"), getattr(s,"upper")()
@I
def a83(s,t): return [*s,*t], {*s}, (*s,)
@I
def a84(s,t): return s.isupper(), s.islower(), s.istitle()
@I
def a85(s,t): return s.format(1) if "{" not in s and "}" not in s else ""
@I
def a86(s,t): return collections.ChainMap({s:1},{"aa":2}).get("aa")
@I
def a87(s,t): return list(dict(zip([s,t],[1,2])).items())
@I
def a88(s,t): return set(s) <= set("ab01")
@I
def a89(s,t): return s.casefold() == t.casefold()
@I
def a90(s,t): return tuple(map(operator.eq, s, t)), sum(map(operator.eq,s,"ab"))
@I
def a91(s,t):
    try: return {"aa":1}[s]
    except KeyError as e: return "missing"
@I
def a92(s,t): return frozenset([s,t]) == {"aa","bb"}
@I
def a93(s,t): return len(set([s,t])), len(list(dict.fromkeys([s,t,"aa"])))
@I
def a94(s,t):
    class K(str):
        def __eq__(self,o): return str(self)==str(o)
        def __hash__(self): return hash(str(self))
    return K(s)==t
@I
def a95(s,t): return os.path.splitext(s) if False else s.rfind("a")
@I
def a96(s,t): return int(s[0]) + int(t[0]) if s[0].isdecimal() and t[0].isdecimal() and s.isascii() and t.isascii() else None
@I
def a97(s,t): return re.fullmatch(r"(?i)AB|a.", s) is not None, bool(re.search("^a$|b", s, re.M))
@I
def a98(s,t): return re.findall(r"(a)(b)?", s+t)
@I
def a99(s,t): return re.subn("a","b",s)
PATS=[r"\ba", r"a\b", r"\Ba", r"(?<=a)b", r"(?<!a)b", r"(?<=a|\n)[b0]", r"^a", r"(?m)^a", r"(?m)a$", r"a$", r"\Aa|b\Z", r"(?<!\w)[a-z]+(?!\w)", r"a(?=b)|b(?!a)", r"(?i)A+", r"(?>a+)b", r"a++b", r"(a|ab)(b|)", r"(?:a|b)*?b", r"[^ab]+", r"\s", r"\d|_", r"(?P<x>a)(?P<y>b)?", r"(?s).", r".", r"a{2}", r"[ab]{1,2}", r"'(?:[^']|'')*'"]
for _p in PATS:
    def _f(s,t,_p=_p):
        x=s+t
        return [m.span() for m in re.finditer(_p,x)], re.match(_p,x) is not None, re.fullmatch(_p,x) is not None, re.sub(_p,"-",x), (m.groups() if (m:=re.search(_p,x)) else None), [m.span() for m in [re.compile(_p).match(x,1)] if m]
    _f.__name__=_p
    F.append(_f)
@harness("idioms")
def idioms(h):
    f=h.choose(F)
    s=h.sym(2,"=ab01Az '\n"); t=h.sym(2,"=ab")
    try: v=f(s,t)
    except (Stop if False else ZeroDivisionError): v=None
    if isinstance(v,(set,frozenset,tuple)): v=list(v) if isinstance(v,tuple) else sorted(v)
    def fix(x):
        if isinstance(x,(tuple,list)): return [fix(y) for y in x]
        if isinstance(x,(set,frozenset)): return sorted(x)
        if isinstance(x,dict): return {k:fix(y) for k,y in x.items()}
        return x
    h.record(f.__name__, Result(True,fix(v),None,""))
    h.check(True,"x")
