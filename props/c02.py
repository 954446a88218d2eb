"""C02  Plain-text children are inert data."""
from symx import pat
from props import common as C

ENCODED = ["htmltools._util.html_escape", "htmltools._core._normalize_text",
           "Tag.__init__", "Tag.get_html_string", "Tag.render", "Tag.tagify", "Tag.append",
           "Tag.extend", "Tag.insert", "TagList.*", "_tagchilds_to_tagnodes", "flatten"]
BOUNDS = {
    "quick": "text: every string of up to 8 Unicode scalar values, plus runs of one "
             "character of length 0..6000 next to them; numbers in -10^7..10^7 and a list of "
             "floats; indent 0..40; the listed containers, positions and ways of adding"
             "; text of a str subclass; foreign objects with __html__; child lists of 150 and "
             "nestings of 70 levels with one arbitrary string in them",
    "thorough": "as quick with text of up to 12 characters and mixed child lists",
}
COVER = ["escaped", "plain"]

WAYS = ("ctor", "list", "nest", "taglist", "append", "append2", "extend", "insert", "tagify",
        "tagify-list", "add", "radd", "setattr", "consolidate")
CONTAINERS = ("div", "span", "p-deep", "top", "custom", "void", "title", "doc")
POS = ("only", "first", "mid", "last", "aftertext", "beforetext", "afterhtml", "aftermeta",
       "beforeinline", "afterinline")


def shapes(tier):
    out = []
    for c in CONTAINERS:
        for p in POS:
            out.append(dict(kind="pos", c=c, p=p))
    for w in WAYS:
        for c in ("div", "span"):
            out.append(dict(kind="way", w=w, c=c, p="only"))
            out.append(dict(kind="way", w=w, c=c, p="mid"))
    out.append(dict(kind="escape"))
    out.append(dict(kind="name"))
    out.append(dict(kind="sub"))
    for p in ("only", "mid"):
        out.append(dict(kind="num", p=p))
        out.append(dict(kind="float", p=p))
    for ch in ("a", "&", "<", ">", "\n", "\u2028"):
        out.append(dict(kind="long", ch=ch, p="only"))
        out.append(dict(kind="long", ch=ch, p="mid"))
    for n in (14, 150):
        out.append(dict(kind="many", n=n))
    for n in (12, 70):
        out.append(dict(kind="deep", n=n))
    out.sort(key=lambda sh: sh["kind"] in ("pos", "way"))
    return out


def text(S, name="t", n=None):
    if n is None:
        n = 8 if S.tier == "quick" else 12
    return S.str(name, n)


def sibs(S, p, x):
    """Spec siblings around the node x."""
    d, s = C.El("div", C.T("q")), C.El("b", ws=False)
    return {
        "only": [x], "first": [x, d], "mid": [d, x, d], "last": [d, x],
        "aftertext": [C.T("u&"), x], "beforetext": [x, C.T("<v")], "afterhtml": [C.H("<i>&"), x],
        "aftermeta": [C.M(), x, C.M()], "beforeinline": [x, s], "afterinline": [s, x],
    }[p]


def wrap(S, c, kids):
    if c == "div":
        return C.El("div", *kids)
    if c == "span":
        return C.El("span", *[k if not (k.kind == "el" and k.ws) else C.El(k.name, *k.kids, ws=False)
                              for k in kids], ws=False)
    if c == "p-deep":
        return C.El("section", C.El("p", C.El("ul", C.El("li", *kids))))
    if c == "custom":
        return C.El("my-el", *kids)
    if c == "void":
        return C.El("br", *kids)
    if c == "title":
        return C.El("title", *kids)
    return C.L(*kids)


def expect(n, k, eol):
    if n.kind == "list":
        return C.lines(n.kids, k, eol)
    if n.ws:
        return C.block(n, k, eol)
    return C.spaces(k) + C.inline(n)


def cover(S, t):
    m = S.any_in(t, pat.X.cs_of("&<>"))
    S.covers("escaped" if (m if S.concrete else S.run.ev(S.expr(m))) else "plain")


def run(S, sh):
    ht = S.ht
    kind = sh["kind"]
    if kind == "escape":
        t = text(S, n=12 if S.tier == "quick" else 20)
        cover(S, t)
        S.check_match(ht.html_escape(t), pat.enc(t), "html_escape(text)")
        S.check_match(ht.html_escape(t, attr=False), pat.enc(t), "html_escape(text, False)")
        S.check_match(ht.html_escape(t, attr=True), pat.attr(t), "html_escape(text, True)")
        S.check_match(ht.html_escape(t, True), pat.attr(t), "html_escape(text, True)")
        return
    if kind in ("pos", "way"):
        t = text(S)
        cover(S, t)
        x = C.T(t)
    elif kind == "name":
        # an arbitrary ordinary element name, text only child and text among children
        t = text(S, n=2)
        nm = S.str("tag", 9, 1, cs=C.X.cs_of("abcdefghijklmnopqrstuvwxyz-0123456789"),
                   first=C.X.cs_of("abcdefghijklmnopqrstuvwxyz"))
        S.assume(S.all(nm != "script", nm != "style"))
        for spec in (C.El(nm, C.T(t)), C.El(nm, C.T(t), C.T(t)), C.El(nm, C.El("p"), C.T(t))):
            out = C.build(S, spec).get_html_string()
            S.observe(out)
            S.check_match(out, expect(spec, 0, "\n"), "text in an element of any name")
        return
    elif kind == "sub":
        t = [C.Str2("<s&>"), C.Str2("x"), C.StrMarkup("<s&>"), C.StrMarkup("x")][S.choice("w", 4)]
        spec = C.El("div", C.T(t), C.T(t))
        out = C.build(S, spec).get_html_string()
        S.check_match(out, expect(C.El("div", C.T(str(t)), C.T(str(t))), 0, "\n"), "str subclass")
        out = C.build(S, C.El("div", C.T(t))).get_html_string()
        S.check_match(out, expect(C.El("div", C.T(str.__str__(t))), 0, "\n"), "str subclass")
        S.check_match(ht.html_escape(t), pat.enc(str.__str__(t)), "str subclass")
        return
    elif kind == "num":
        x = C.N(S.int("v", -10**7, 10**7))
    elif kind == "float":
        x = C.N(S.pick("f", C.FLOATS))
    elif kind == "long":
        a, b = S.str("a", 1, 1), S.str("b", 1, 1)
        t = a + S.rep("n", sh["ch"], 0, 6000) + b
        x = C.T(t)
    elif kind == "many":
        # many text leaves in one list, the hot one anywhere
        n = sh["n"]
        at = C.spot(S, n)
        t = text(S, n=1)
        spec = C.El("div", *[C.T(t) if i == at else (C.T("k%d&" % i) if i % 3 else C.El("p"))
                             for i in range(n)])
        out = C.build(S, spec).get_html_string()
        S.observe(out)
        S.check_match(out, expect(spec, 0, "\n"), "text among many children")
        return
    elif kind == "deep":
        t = text(S, n=1)
        spec = C.El("div", C.T(t), C.El("i", C.T(t), ws=False))
        for i in range(sh["n"]):
            spec = C.El("div" if i % 2 else "ul", C.T(t), spec, C.T(t))
        out = C.build(S, spec).get_html_string()
        S.check_match(out, expect(spec, 0, "\n"), "text in deep trees")
        return
    c = sh.get("c", "div")
    p = sh.get("p", "only")
    spec = wrap(S, c, sibs(S, p, x))
    if kind == "way":
        obj = build_way(S, sh["w"], spec, x)
        if sh["w"].startswith("tagify"):
            k = 0
            out = obj.render()["html"]
        else:
            k = S.int("indent", 0, 40)
            out = obj.get_html_string(k)
        S.observe(out)
        S.check_match(out, expect(spec, k, "\n"), "text child via " + sh["w"])
        if sh["w"] != "tagify":
            S.check_match(str(obj), expect(spec, 0, "\n"), "str(): text child via " + sh["w"])
        return
    obj = C.build(S, spec)
    if c == "doc":
        out = ht.HTMLDocument(obj).render()["html"]
        S.observe(out)
        S.check_match(out, pat.seq("<!DOCTYPE html>\n<html>\n  <head>\n    <meta charset=\"utf-8\"/>"
                                   "\n  </head>\n")
                      + C.block(C.El("body", *spec.kids), 1, "\n") + pat.seq("\n</html>"),
                      "text child in a document")
        return
    k = S.int("indent", 0, 40)
    eol = S.pick("eol", ["\n", "\r\n", ""])
    out = obj.get_html_string(k, eol)
    S.observe(out)
    S.check_match(out, expect(spec, k, eol), "text child emitted inertly")


def build_way(S, w, spec, x):
    ht = S.ht
    kids = spec.kids
    i = [j for j, k in enumerate(kids) if k is x][0]
    pre = [C.build(S, k) for k in kids[:i]]
    post = [C.build(S, k) for k in kids[i + 1:]]
    v = C.build(S, x)

    def tag(*a):
        return ht.Tag(spec.name, *a, _add_ws=spec.ws)
    if w == "ctor":
        return tag(*pre, v, *post)
    if w == "list":
        return tag(pre, [v], *post)
    if w == "nest":
        return tag([pre, ([None, [v]], post)])
    if w == "taglist":
        return tag(ht.TagList(pre, ht.TagList(v)), post)
    if w == "append":
        t = tag(*pre)
        t.append(v)
        for y in post:
            t.append(y)
        return t
    if w == "append2":
        t = tag()
        t.append(*pre, v, *post)
        return t
    if w == "extend":
        t = tag(pre)
        t.extend([v, *post])
        return t
    if w == "insert":
        t = tag(pre, post)
        t.insert(len(pre), v)
        return t
    if w == "tagify":
        return tag(*pre, C.Expander(lambda: v), *post)
    if w == "tagify-list":
        return tag(*pre, C.Expander(lambda: ht.TagList(v)), *post)
    if w == "add":
        t = tag()
        t.children = ht.TagList(pre) + v + post
        return t
    if w == "radd":
        t = tag()
        t.children = pre + (v + ht.TagList(post)) if isinstance(v, str) else \
            pre + ([v] + ht.TagList(post))
        return t
    if w == "setattr":
        t = tag(pre, "zz", post)
        t.children[len(pre)] = v
        return t
    if w == "consolidate":
        attrs, ch = ht.consolidate_attrs(pre, v, post)
        return tag(attrs, *ch)
