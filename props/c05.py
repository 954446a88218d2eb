"""C05  No whitespace is ever injected into inline content."""
from symx import pat
from props import common as C

ENCODED = ["Tag.get_html_string", "TagList.get_html_string", "Tag.render", "TagList.render",
           "Tag.__init__", "tags.* defaults"]
BOUNDS = {
    "quick": "every forest of up to 4 nodes over {block, inline, inline void, block void, text, "
             "HTML(), _repr_html_ object, metadata} (5 nodes over block/inline/text) as a "
             "list, in a block and in an inline tag, first text leaf any string of 0..1 "
             "characters; every pair of whitespace flags on richer fixed trees; depth and "
             "fan-out 14; any element name; indent 0..40; eol of up to 2 whitespace characters"
             "; 150 siblings and 70 levels; flags toggled between two renderings; expanded "
             "tagifiables; subclassed tags",
    "thorough": "forests of up to 5 nodes over all kinds",
}
COVER = ["block-in-inline", "inline-only"]
KINDS = "BIVWTHRM"
WSC = C.X.cs_of(" \t\r\n\f")
NAME1 = C.X.cs_of("abcdefghijklmnopqrstuvwxyz")
NAMEC = C.X.cs_of("abcdefghijklmnopqrstuvwxyz-0123456789")


def shapes(tier):
    out = []
    for p in C.prefixes(KINDS, 2):
        out.append(dict(kind="tree", pre=p, n=4 if tier == "quick" else 5, kinds=KINDS))
    if tier == "quick":
        for p in C.prefixes("BIT", 2):
            out.append(dict(kind="tree", pre=p, n=5, kinds="BIT"))
    for w in ("list", "block", "inline", "noaddws", "doc"):
        out.append(dict(kind="place", w=w))
    out += [dict(kind="deep", w=w, n=n) for w in range(4) for n in (14, 70)]
    out += [dict(kind="wide", w=w, n=n) for w in range(3) for n in (14, 150)]
    out += [dict(kind="name", ctx=c) for c in ("t", "e", "k", "b", "n", "p")]
    out += [dict(kind="cat", part=i) for i in range(6)]
    out += [dict(kind="flags", i=i) for i in range(5)]
    out.append(dict(kind="toggle"))
    out.append(dict(kind="wsdata"))
    out.append(dict(kind="expand"))
    return out


def eol_of(S):
    k = S.choice("eolk", 3)
    return "\n" if k == 0 else "" if k == 1 else S.str("eol", 2, 1, cs=WSC)


W = pat.ws(WSC)


def check(S, spec, label, lay=None):
    obj = C.build(S, spec)
    if lay is None:
        out = obj.render()["html"]
    else:
        out = obj.get_html_string(*lay)
    S.observe(out)
    S.check_match(out, W + C.loose(spec, W), label)
    if spec.kind == "el" and not C.contains_block(spec):
        S.covers("inline-only")
        k = lay[0] if lay else 0
        S.check_match(out, C.spaces(k) + C.inline(spec), label + " (inline subtree)")
    if spec.kind == "el" and not spec.ws and C.contains_block(spec):
        S.covers("block-in-inline")
    return out


def run(S, sh):
    ht = S.ht
    k = sh["kind"]
    if k == "tree":
        kids = C.Gen(S, sh["kinds"], sh["n"], sh["pre"]).forest(stop=False)
        for spec in (C.L(*kids), C.El("div", *kids), C.El("span", *kids, ws=False)):
            check(S, spec, "whitespace only next to block tags")
        out = ht.TagList(*[C.build(S, c) for c in kids]).get_html_string(add_ws=False)
        S.check_match(out, C.loose_kids(kids, W, False), "list without surrounding whitespace")
    elif k == "place":
        # an inline-only subtree at any place, any layout arguments
        t, u = S.str("t", 1, 1), " u"
        sub = C.El("a", C.El("b", C.T(t), C.H(u), ws=False), C.T(u), C.El("br", ws=False), C.R(t),
                   C.M(), C.El("i", ws=False), ws=False, attrs=[("href", t)])
        pos = S.choice("pos", 5)
        kids = [C.El("p"), C.T("x"), C.El("hr", ws=False), C.El("p", C.T("y"))]
        kids.insert(pos, sub)
        lay = (S.int("indent", 0, 40), eol_of(S))
        w = sh["w"]
        if w == "list":
            check(S, C.L(*kids), "inline subtree in a list", lay)
        elif w == "block":
            check(S, C.El("div", *kids), "inline subtree in a block", lay)
        elif w == "inline":
            check(S, C.El("span", *kids, ws=False), "inline subtree in an inline tag", lay)
        elif w == "noaddws":
            out = ht.TagList(*[C.build(S, c) for c in kids]).get_html_string(
                lay[0], lay[1], add_ws=False)
            S.check_match(out, C.loose_kids(kids, W, False), "add_ws=False")
        elif w == "doc":
            out = ht.HTMLDocument(*[C.build(S, c) for c in kids]).render()["html"]
            S.check_match(out, pat.anything() + ("</head>",) + W
                          + C.loose(C.El("body", *kids), W) + W + ("</html>",),
                          "inline subtree in a document")
    elif k == "deep":
        t = S.str("t", 1)
        ws = [S.flag("a"), S.flag("b"), S.flag("c")]
        spec = C.El("b", C.T(t), ws=ws[0])
        for i in range(sh["n"]):
            f = {2: ws[1], 9: ws[2]}.get(i, sh["w"] in (1, 3))
            kids = [spec]
            if i % 3 == 0:
                kids.append(C.T("x%d" % i))
            if i % 4 == 1:
                kids.insert(0, C.El("i", ws=False))
            if sh["w"] >= 2 and i % 2:
                kids.append(C.M())
            spec = C.El("u" if not f else "div", *kids, ws=f)
        check(S, spec, "deep nesting", (S.int("indent", 0, 40), eol_of(S)))
    elif k == "wide":
        t = S.str("t", 1)
        at = C.spot(S, sh["n"])
        ks = [C.El("b", ws=False), C.T("w"), C.R("<r>"), C.H("&h"), C.M(),
              C.El("i", C.T("z"), ws=False), C.El("br", ws=False)]
        kids = [ks[i % 7] for i in range(sh["n"])]
        kids[at] = [C.T(t), C.El("p", C.T(t)), C.El("s", C.El("hr"), C.T(t), ws=False)][sh["w"]]
        for spec in (C.L(*kids), C.El("div", *kids), C.El("span", *kids, ws=False)):
            check(S, spec, "wide list")
    elif k == "name":
        # any element name: the flag alone decides
        nm = S.str("tag", 10, 1, cs=NAMEC, first=NAME1)
        S.assume(S.all(nm != "script", nm != "style"))
        void = any(bool(nm == v) for v in C.VOID)
        ws = S.flag("ws")
        t = S.str("t", 1)

        def el(*kids):
            return C.El(nm, *kids, ws=ws, void=void)
        i = C.El("i", ws=False)
        spec = {"t": lambda: el(C.T(t)), "e": lambda: C.El("u", el(), C.T(t), ws=False),
                "k": lambda: el(i, C.T(t)), "b": lambda: C.L(C.T(t), el(C.T(t)), i),
                "n": lambda: el(el(C.T(t), i)), "p": lambda: C.El("div", i, el(), C.T(t))}[sh["ctx"]]()
        check(S, spec, "any element name")
    elif k == "cat":
        names = [n for n in sorted(C.INLINE) if hasattr(ht.tags, n)][sh["part"]::6]
        n = S.pick("n", names)
        t = S.str("t", 1)
        f = getattr(ht.tags, n)
        v = n in C.VOID
        pn = C.El(n, ws=False)
        pt = C.El(n, C.T(t), ws=False)
        pk = C.El(n, C.T(t), C.El("b", ws=False), ws=False)
        objs = ["a", f(), f(t), "z", f(t, ht.tags.b())]
        spec = [C.T("a"), pn, pt, C.T("z"), pk]
        for m, s in ((ht.TagList(*objs), C.L(*spec)), (ht.tags.div(*objs), C.El("div", *spec)),
                     (ht.tags.span(*objs), C.El("span", *spec, ws=False))):
            out = str(m)
            S.observe(out)
            S.check_match(out, C.loose(s, W), "inline tag functions")
    elif k == "flags":
        f = [S.flag("f%d" % i) for i in range(6)]
        t = S.str("t", 1, 1)
        i = sh["i"]
        a = C.El("p", C.T(t), ws=f[0])
        b = C.El("hr", ws=f[1])
        c = C.El("b", a, b, ws=f[2])
        d = C.El("i", ws=f[3])
        spec = [C.El("div", C.El("u", c, d, ws=f[4]), C.T(t), d, ws=f[5]),
                C.El("div", C.El("u", d, C.T(t), ws=f[4]), c, d, ws=f[5]),
                C.L(C.El("u", c, ws=f[4]), d, C.El("s", C.T(t), d, ws=f[5])),
                C.El("div", C.El("u", C.El("s", c, C.M(), ws=f[4]), C.D("z")), d, ws=f[5]),
                C.El("div", C.R(t), C.El("u", C.H(t), c, C.R(t), ws=f[4]), C.M(), d, ws=f[5])][i]
        check(S, spec, "whitespace flags", (S.int("indent", 0, 3), eol_of(S)))
    elif k == "toggle":
        # the flag is a plain attribute and may be switched after construction
        f, g = S.flag("f"), S.flag("g")
        t = S.str("t", 1)
        a = ht.Tag("b", t, ht.Tag("i", _add_ws=False), _add_ws=not f)
        a.add_ws = f
        d = ht.Tag("div", "q", a, a, "r", _add_ws=not g)
        str(d)
        d.add_ws = g
        sa = C.El("b", C.T(t), C.El("i", ws=False), ws=f)
        out = str(d)
        S.observe(out)
        S.check_match(out, C.loose(C.El("div", C.T("q"), sa, sa, C.T("r"), ws=g), W),
                      "flag switched later")
    elif k == "wsdata":
        # whitespace that is data stays as it is, and none is added around it
        t = S.str("t", 3, cs=WSC)
        u = S.str("u", 3, cs=WSC)
        kids = [C.T(t), C.El("b", C.T(u), C.T(t), ws=False), C.H(u), C.R(t), C.T("")]
        check(S, C.El("span", *kids, ws=False), "whitespace data", (S.int("indent", 0, 40), "\n"))
        check(S, C.El("pre", *kids, ws=False), "whitespace data", (S.int("indent", 0, 40), "\n"))
        check(S, C.El("pre", C.T(t), ws=False), "whitespace data", (S.int("indent", 0, 40), "\n"))
    elif k == "expand":
        t = S.str("t", 1)
        f = S.flag("f")
        b = C.El("b", C.T(t), ws=f)
        x = C.Expander(lambda: ht.TagList(t, C.build(S, b), C.build(S, b)))
        out = ht.Tag("span", "a", x, "z", _add_ws=False).render()["html"]
        S.check_match(out, C.loose(C.El("span", C.T("a"), C.T(t), b, b, C.T("z"), ws=False), W),
                      "expansion inside inline content")
        out = ht.Tag("div", "a", x, x).render()["html"]
        S.check_match(out, C.loose(C.El("div", C.T("a"), C.T(t), b, b, C.T(t), b, b), W),
                      "expansion inside a block")
