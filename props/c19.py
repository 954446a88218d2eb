"""C19  Every tag function creates its own element with the documented default."""
from symx import expr as X
from props import common as C

ENCODED = ["every function of htmltools.tags and htmltools.svg", "top-level shortcuts",
           "Tag.__init__", "TagAttrDict.update", "TagList.__init__"]
BOUNDS = {
    "quick": "each of the 113 + 66 functions and 17 shortcuts, each with up to 2 positional "
             "arguments of any of 12 kinds (text and attribute names/values symbolic), up to 2 "
             "keyword attributes (names of up to 3 symbolic characters), every _add_ws argument: "
             "absent, any int, any string of up to 2 characters, True, False, None, float, list"
             "; 80 children and 60 attributes around arbitrary ones",
    "thorough": "up to 3 positional arguments",
}
COVER = ["default", "explicit", "rejected"]
ASSUMPTIONS = ["the element names and the inline classification are those of "
               "scripts/generate_tags.py at the pinned commit"]

HTML_NAMES = """a abbr address area article aside audio b base bdi bdo blockquote body br button canvas caption
cite code col colgroup data datalist dd details dfn dialog div dl dt em embed fieldset
figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hr html i iframe img input ins kbd
label legend li link main map mark math menu meta meter nav noscript object ol optgroup option
output p param picture portal pre progress q rp rt ruby s samp script section select slot small
source span strong style sub summary sup svg table tbody td template textarea tfoot th thead
time title tr track u ul var video wbr""".split()
SVG_NAMES = """a animate animateMotion animateTransform circle clipPath defs desc discard ellipse feBlend
feColorMatrix feComponentTransfer feComposite feConvolveMatrix feDiffuseLighting
feDisplacementMap feDistantLight feDropShadow feFlood feFuncA feFuncB feFuncG feFuncR
feGaussianBlur feImage feMerge feMergeNode feMorphology feOffset fePointLight
feSpecularLighting feSpotLight feTile feTurbulence filter foreignObject g hatch hatchpath image
line linearGradient marker mask metadata mpath path pattern polygon polyline radialGradient
rect script set stop style svg switch symbol text textPath title tspan use view""".split()
TOP = "a br code div em h1 h2 h3 h4 h5 h6 hr img p pre span strong".split()
KINDS = ("str", "int", "float", "None", "tag", "list", "taglist", "html", "meta", "repr", "dict", "empty")
NAME = X.cs_of("abcXYZ_-019:")
BAD = ("int", "str", "None", "float", "list", "tag")


def shapes(tier):
    out = []
    n = 2 if tier == "quick" else 3
    for mod, names in (("tags", HTML_NAMES), ("svg", SVG_NAMES), ("", TOP)):
        for f in names:
            out.append(dict(mod=mod, f=f, kind="args", n=n))
            out.append(dict(mod=mod, f=f, kind="ws"))
            if mod != "svg" or f[0] in "fta":
                out.append(dict(mod=mod, f=f, kind="large"))
    return out


def get(ht, mod, f):
    m = {"tags": lambda: ht.tags, "svg": lambda: ht.svg, "": lambda: ht}[mod]()
    return getattr(m, f)


def arg(S, i, k):
    ht = S.ht
    if k == "str":
        return S.str("s%d" % i, 1, 1)
    if k == "int":
        return S.int("n%d" % i, -99, 99)
    if k == "float":
        return 1.5
    if k == "None":
        return None
    if k == "tag":
        return ht.Tag("q", "x", _add_ws=False)
    if k == "list":
        return [S.str("l%d" % i, 1, 1), ["b", None], 3]
    if k == "taglist":
        return ht.TagList("p", ht.Tag("i"))
    if k == "html":
        return ht.HTML(S.str("h%d" % i, 1, 1))
    if k == "meta":
        return ht.MetadataNode()
    if k == "repr":
        return C.ReprObj("<r/>")
    if k == "dict":
        return {S.str("d%d" % i, 1, 1, cs=NAME): S.str("v%d" % i, 1, 1), "k%d" % i: True,
                "class": "c%d" % i, "none": None}
    return ()


def same(S, a, b, what):
    """Children and attributes of two tags agree (strings by value, objects by identity)."""
    ht = S.ht
    ca, cb = list(a.children), list(b.children)
    S.check(len(ca) == len(cb), what + ": number of children")
    for x, y in zip(ca, cb):
        if isinstance(x, str) and isinstance(y, str):
            S.check_eq(x, y, what + ": child text")
        elif isinstance(x, ht.HTML) and isinstance(y, ht.HTML):
            S.check_eq(x.as_string(), y.as_string(), what + ": HTML() child")
        else:
            S.check(x is y, what + ": child object")
    ia, ib = list(a.attrs.items()), list(b.attrs.items())
    S.check(len(ia) == len(ib), what + ": number of attributes")
    for (k, v), (k2, v2) in zip(ia, ib):
        S.check_eq(k, k2, what + ": attribute name")
        S.check(isinstance(v, ht.HTML) == isinstance(v2, ht.HTML), what + ": attribute type")
        S.check_eq(v.as_string() if isinstance(v, ht.HTML) else v,
                   v2.as_string() if isinstance(v2, ht.HTML) else v2, what + ": attribute value")


def run(S, sh):
    ht = S.ht
    f = get(ht, sh["mod"], sh["f"])
    name = sh["f"]
    default = name not in C.INLINE
    if sh["kind"] == "ws":
        w = S.pick("w", ("default", "True", "False") + BAD)
        kw = {"id": S.str("v", 1)}
        if w == "default":
            S.covers("default")
            ws = default
        elif w in ("True", "False"):
            S.covers("explicit")
            ws = kw["_add_ws"] = w == "True"
        else:
            bad = {"int": lambda: S.int("bad", -3, 3), "str": lambda: S.str("bads", 2),
                   "None": lambda: None, "float": lambda: 1.0, "list": lambda: [],
                   "tag": lambda: ht.Tag("b")}[w]()
            _, exc = S.attempt(f, "x", _add_ws=bad, **kw)
            S.covers("rejected")
            S.check(isinstance(exc, TypeError), "a non-boolean _add_ws is rejected")
            return
        for extra in ((), ("x",), (ht.Tag("p"), "x", ht.Tag("b", _add_ws=False))):
            t = f(*extra, **kw)
            S.check(type(t) is ht.Tag, "returns a Tag")
            S.check(isinstance(t.name, str) and t.name == name, "element name")
            S.check(t.add_ws is ws, "whitespace default")
            S.check(list(t.attrs) == ["id"], "attributes passed through")
            same(S, t, ht.Tag(name, *extra, **kw), "same as the constructor")
        S.observe(str(t))
        return
    if sh["kind"] == "large":
        s = S.str("s", 1)
        n = 80
        at = S.pick("at", [0, 40, n - 1])
        args = [s if i == at else [lambda: "k", lambda: ht.Tag("b"), lambda: {"a%d" % i: s},
                                   lambda: None, lambda: [1, ["z"]]][i % 5]() for i in range(n)]
        kw = {"k%d" % i: s if i == at else "v" for i in range(60)}
        t, u = f(*args, **kw), ht.Tag(name, *args, _add_ws=default, **kw)
        S.check(type(t) is ht.Tag and t.name == name, "element name")
        S.check(t.add_ws is default, "whitespace default")
        same(S, t, u, "same as the constructor")
        S.observe(str(t))
        return
    n = S.choice("n", sh["n"] + 1)
    args = [arg(S, i, S.pick("k%d" % i, KINDS if i == 0 else ("str", "dict", "tag")))
            for i in range(n)]
    kw = {}
    m = S.choice("m", 2) if n < 2 else 1
    if m:
        kw[S.str("kw", 2 if n == 0 else 1, 1, cs=NAME)] = S.str("kv", 1, 1)
    if n == 0:
        kw["class_"] = S.pick("c", ["z", True, False, None, 7, ht.HTML("<")])
    t = f(*args, **kw)
    u = ht.Tag(name, *args, _add_ws=default, **kw)
    S.check(type(t) is ht.Tag, "returns a Tag")
    S.check(isinstance(t.name, str) and t.name == name, "element name")
    S.check(t.add_ws is default, "whitespace default")
    same(S, t, u, "same as the constructor")
    t2 = f(*args, **kw)
    S.check(t2 is not t and t2.children is not t.children and t2.attrs is not t.attrs,
            "each call returns its own Tag")
    S.observe(t.get_html_string())
