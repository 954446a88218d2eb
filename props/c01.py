"""C01  Rendered markup parses back to the same element tree."""
from symx import pat
from props import common as C

ENCODED = ["Tag.__init__", "Tag.get_html_string", "TagList.get_html_string", "html_escape",
           "_normalize_text", "_VOID_TAG_NAMES", "TagAttrDict.*", "Tag.render"]
BOUNDS = {
    "quick": "every forest of up to 4 nodes over {block, inline, inline void, block void, text} "
             "(first text leaf symbolic, 1 character); every catalogue element in 6 contexts; "
             "every valid element name of up to 12 characters and attribute name of up to 8; "
             "text/values up to 3 characters; depth and fan-out 14; indent 0..40; eol any "
             "whitespace string of up to 2 characters"
             "; 150 siblings or attributes and 70 levels of nesting; the same tag object "
             "twice; changed whitespace flags; int and float texts",
    "thorough": "forests of up to 5 nodes plus numbers and HTML(), names up to 16 characters",
}
COVER = ["void-name", "other-name"]
WSC = C.X.cs_of(" \t\r\n\f")
NAME1 = C.X.cs_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
NAMEC = C.X.cs_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.:_")
KINDS = "BIVWT"


def shapes(tier):
    out = [dict(kind="tree", pre=p, n=4 if tier == "quick" else 5)
           for p in C.prefixes(KINDS, 2)]
    for i in range(24):
        out.append(dict(kind="cat", part=i, parts=24))
    for ctx in ("alone", "text", "kids", "inblock", "ininline", "deep", "meta"):
        out.append(dict(kind="name", ctx=ctx))
    out.append(dict(kind="attrs"))
    out.append(dict(kind="attrname"))
    for n in (14, 150):
        out.append(dict(kind="manyattrs", n=n))
        out.append(dict(kind="wide", n=n))
    for n in (14, 70):
        out.append(dict(kind="deep", n=n))
    out.append(dict(kind="text"))
    out.append(dict(kind="text1"))
    out.append(dict(kind="nums"))
    out.append(dict(kind="same"))
    for i in range(4):
        out.append(dict(kind="flags", i=i))
    return out


def eol_of(S):
    k = S.choice("eolk", 3)
    return "\n" if k == 0 else "" if k == 1 else S.str("eol", 2, 1, cs=WSC)


def out_of(S, spec, sym_layout=True):
    obj = C.build(S, spec)
    if sym_layout:
        k = S.int("indent", 0, 40)
        out = obj.get_html_string(k, eol_of(S))
    else:
        out = obj.render()["html"]
    S.observe(out)
    S.check_match(out, C.token_pattern(spec), "token sequence")
    return obj


def run(S, sh):
    ht = S.ht
    k = sh["kind"]
    if k == "tree":
        spec = C.L(*C.Gen(S, KINDS, sh["n"], sh["pre"]).forest(stop=False))
        obj = C.build(S, spec)
        lay = S.choice("lay", 3) if sh["n"] == 4 else 0
        out = (obj.get_html_string() if lay == 0 else
               obj.get_html_string(S.int("indent", 0, 40), "\n") if lay == 1 else
               ht.Tag("section", obj).get_html_string(2, ""))
        if lay == 2:
            spec = C.El("section", *spec.kids)
        S.observe(out)
        S.check_match(out, C.token_pattern(spec), "token sequence of a tree")
    elif k == "cat":
        names = sorted(set(C.tag_functions(ht.tags)) | set(C.tag_functions(ht.svg)))
        names = names[sh["part"]::sh["parts"]]
        fn = S.pick("fn", names)
        f = getattr(ht.tags, fn, None) or getattr(ht.svg, fn)
        nm = f().name
        ctx = S.pick("ctx", ["e", "t", "k", "b", "i", "s"])
        t = S.str("t", 1, 1)
        raw = nm in ("script", "style")
        txt = C.T("x") if raw else C.T(t)
        ws = f().add_ws

        def el(*kids):
            return C.El(nm, *kids, ws=ws, attrs=[("id", t)])
        if ctx == "k" and raw:
            txt = C.T("y")
        spec = {"e": lambda: el(), "t": lambda: el(txt), "k": lambda: el(txt, C.El("b", ws=False)),
                "b": lambda: C.El("div", el(), C.T(t), el()),
                "i": lambda: C.El("span", el(), C.T(t), el(), ws=False),
                "s": lambda: C.L(el(), el(C.El("p"), txt), C.T(t))}[ctx]()
        out_of(S, spec, False)
        if ctx in "etk":
            kids = {"e": [], "t": [txt.s], "k": [txt.s, ht.Tag("b", _add_ws=False)]}[ctx]
            S.check_match(str(f(*kids, id=t)), C.token_pattern(spec),
                          "token sequence (tag function)")
    elif k == "name":
        n = 12 if S.tier == "quick" else 16
        nm = S.str("tag", n, 1, cs=NAMEC, first=NAME1)
        ctx = sh["ctx"]
        S.assume(S.all(nm != "script", nm != "style"))
        t = S.str("t", 1, 1)
        ws = S.flag("ws")
        void = any(bool(nm == v) for v in C.VOID)
        S.covers("void-name" if void else "other-name")

        def el(*kids):
            return C.El(nm, *kids, ws=ws, void=void, attrs=[("a", t)])
        spec = {"alone": lambda: el(), "text": lambda: el(C.T(t)),
                "kids": lambda: el(C.El("p"), C.T(t), el()),
                "inblock": lambda: C.El("div", el(), C.T(t), el()),
                "ininline": lambda: C.El("span", el(), el(C.T(t)), ws=False),
                "meta": lambda: el(C.M(), C.M()),
                "deep": lambda: el(el(el(el())))}[ctx]()
        out_of(S, spec, False)
    elif k == "attrs":
        vs = [S.str("v%d" % i, 2) for i in range(2)]
        out_of(S, C.El("a", C.T("x"), attrs=[("href", vs[0]), ("t", vs[1]), ("n", 3), ("e", True)],
                       ws=False))
    elif k == "attrname":
        nm = S.str("an", 8 if S.tier == "quick" else 12, 1, cs=NAMEC if False else C.X.cs_of(
            "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.:@"), first=NAME1)
        t = S.str("v", 1, 1)
        S.assume(nm != "k")
        out_of(S, C.El("div", C.El("img", attrs=[(nm, t)]), attrs=[("k", "1"), (nm, t)]))
    elif k == "manyattrs":
        n = sh["n"]
        t = S.str("v", 1, 1)
        at = C.spot(S, n)
        order = [("a%d" % ((i * 11) % n), t if i == at else "q%d" % i) for i in range(n)]
        out_of(S, C.El("div", attrs=order), False)
        out_of(S, C.El("input", attrs=order), False)
    elif k == "deep":
        t = S.str("t", 1, 1)
        spec = C.El("br")
        for i in range(sh["n"]):
            ws = S.flag("w") if i in (3, 9) else bool(i % 3)
            spec = C.El("div" if i % 2 else "p", spec, *([C.T(t)] if i % 4 == 0 else []), ws=ws)
        out_of(S, spec)
    elif k == "wide":
        t = S.str("t", 1, 1)
        at = C.spot(S, sh["n"])
        kids = []
        for i in range(sh["n"]):
            kids.append(C.T(t) if i == at else [C.El("p"), C.El("i", C.T("z"), ws=False), C.T("w&"),
                                                C.El("hr"), C.El("br", ws=False)][i % 5])
        out_of(S, C.El("div", *kids) if S.flag("in") else C.L(*kids))
    elif k == "text":
        t, u = S.str("t", 2), S.str("u", 1, 1)
        out_of(S, C.El("div", C.T(t), C.T(u), C.El("b", C.T(u), C.T(t), ws=False), C.T(u)), False)
    elif k == "text1":
        out_of(S, C.El("div", C.T(S.str("t", 5))))
    elif k == "nums":
        v = S.int("v", -10**6, 10**6)
        out_of(S, C.El("div", C.N(v), C.El("p", C.N(v)), C.N(S.pick("f", C.FLOATS))))
    elif k == "same":
        # one Tag object used at several positions
        t = S.str("t", 1, 1)
        e = ht.Tag("p", t, ht.Tag("br"), x=t)
        se = C.El("p", C.T(t), C.El("br"), attrs=[("x", t)])
        out = ht.Tag("div", e, "q", e, ht.Tag("div", e)).get_html_string(S.int("indent", 0, 40))
        S.check_match(out, C.token_pattern(C.El("div", se, C.T("q"), se, C.El("div", se))),
                      "shared subtree")
        S.check_match(str(ht.TagList(e, e)), C.token_pattern(C.L(se, se)), "shared subtree in a list")
    elif k == "flags":
        # every combination of whitespace flags on a fixed richer tree
        f = [S.flag("f%d" % i) for i in range(6)]
        t = S.str("t", 1, 1)
        i = sh["i"]
        a = C.El("p", C.T(t), ws=f[0])
        b = C.El("hr", ws=f[1])
        c = C.El("b", a, b, ws=f[2])
        d = C.El("i", ws=f[3])
        spec = [C.El("div", C.El("u", c, d, ws=f[4]), C.T(t), d, ws=f[5]),
                C.El("div", C.El("u", d, C.T(t), ws=f[4]), c, d, ws=f[5]),
                C.L(C.El("u", c, ws=f[4]), d, C.El("s", C.T(t), d, ws=f[5])),
                C.El("div", C.El("u", C.El("s", c, C.M(), ws=f[4]), C.D("z")), d, ws=f[5])][i]
        out_of(S, spec, False)
