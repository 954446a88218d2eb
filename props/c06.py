"""C06  Block layout follows the documented line and indentation rules."""
from symx import pat
from props import common as C

ENCODED = ["Tag.get_html_string", "TagList.get_html_string", "Tag.render", "TagList.render"]
BOUNDS = {
    "quick": "every validly nested forest of up to 4 nodes over {block, inline, inline void, "
             "block void, text, HTML(), _repr_html_ object, metadata} (5 nodes over block/"
             "inline/text), as a list and inside a block tag; first text leaf any character; "
             "fixed richer trees with indent 0..60 and every eol string of up to 3 characters, single texts of up to 9; "
             "depth and fan-out 14; any element name"
             "; 150 siblings and 70 levels; raw-text elements; default arguments; expanded "
             "tagifiables; subclassed tags",
    "thorough": "forests of up to 5 nodes over all kinds",
}
KINDS = "BIVWTHRM"
COVER = ["multi", "single"]
NAME1 = C.X.cs_of("abcdefghijklmnopqrstuvwxyz")
NAMEC = C.X.cs_of("abcdefghijklmnopqrstuvwxyz-0123456789")


def shapes(tier):
    out = []
    for p in C.prefixes(KINDS, 2):
        out.append(dict(kind="tree", pre=p, n=4 if tier == "quick" else 5, kinds=KINDS))
    if tier == "quick":
        for p in C.prefixes("BIT", 2):
            out.append(dict(kind="tree", pre=p, n=5, kinds="BIT"))
    out += [dict(kind="layout", i=i) for i in range(8)]
    out += [dict(kind="deep", w=w, n=n) for w in range(3) for n in (14, 70)]
    out += [dict(kind="wide", w=w, n=n) for w in range(4) for n in (14, 150)]
    out += [dict(kind="name", ctx=c) for c in ("t", "e", "k", "n", "p")]
    out += [dict(kind="attrs"), dict(kind="raw"), dict(kind="single"), dict(kind="expand"),
            dict(kind="default")]
    return out


def expect(n, k, eol):
    if n.kind == "list":
        return C.lines(n.kids, k, eol)
    if n.ws:
        return C.block(n, k, eol)
    return C.spaces(k) + C.inline(n)


def check(S, spec, label, k=0, eol="\n"):
    obj = C.build(S, spec)
    out = obj.get_html_string(k, eol)
    S.observe(out)
    S.check_match(out, expect(spec, k, eol), label)
    return obj


def run(S, sh):
    ht = S.ht
    k = sh["kind"]
    if k == "tree":
        kids = C.Gen(S, sh["kinds"], sh["n"], sh["pre"], inline_only_in_inline=True,
                     ).forest(stop=False)
        check(S, C.L(*kids), "layout of a list")
        check(S, C.El("div", *kids), "layout of a block tag", 1)
        v = C.vis(kids)
        S.covers("single" if len(v) < 2 else "multi")
    elif k == "layout":
        t, u = S.str("t", 2), S.str("u", 1, 1)
        eol = S.str("eol", 3)
        ind = S.int("indent", 0, 60)
        i, b, br = C.El("i", C.T(u), ws=False), C.El("p", C.T(t)), C.El("br", ws=False)
        hr = C.El("hr")
        kids = [
            [C.T(t)], [C.T(t), C.T(u)], [b, i, C.T(u), b], [C.El("ul", C.El("li", b), C.El("li"))],
            [hr, hr, br, C.H(t), C.R(u), hr], [C.R(t)], [C.M(), C.H(t), C.M()],
            [i, br, C.El("ul", C.El("li", i), C.T(u)), C.D("q"), C.T(t), i],
        ][sh["i"]]
        check(S, C.El("div", *kids), "indent and eol", ind, eol)
        check(S, C.L(*kids), "indent and eol of a list", ind, eol)
    elif k == "deep":
        t = S.str("t", 1)
        spec = C.El("b", C.T(t), ws=bool(sh["w"]))
        for i in range(sh["n"]):
            kids = [spec]
            if i % 3 == 0:
                kids.append(C.T("x\ny"))
            if i % 4 == 1:
                kids.insert(0, C.El("i", ws=False))
            if sh["w"] == 2 and i % 2:
                kids.insert(0, C.M())
            spec = C.El("div", *kids)
        check(S, spec, "deep nesting", S.int("indent", 0, 60), S.str("eol", 1))
    elif k == "wide":
        t = S.str("t", 1)
        at = C.spot(S, sh["n"])
        ks = [C.El("b", ws=False), C.T("w"), C.R("<r>"), C.H("&h"), C.M(),
              C.El("i", C.T("z"), ws=False), C.El("br", ws=False), C.El("p")]
        kids = [ks[i % 8] for i in range(sh["n"])]
        kids[at] = [C.T(t), C.El("p", C.T(t)), C.El("p", C.El("hr"), C.T(t)), C.R(t)][sh["w"]]
        check(S, C.L(*kids), "wide list", S.int("indent", 0, 60))
        check(S, C.El("div", *kids), "wide block", S.int("indent", 0, 60))
    elif k == "name":
        nm = S.str("tag", 10, 1, cs=NAMEC, first=NAME1)
        S.assume(S.all(nm != "script", nm != "style"))
        void = any(bool(nm == v) for v in C.VOID)
        t = S.str("t", 1)

        def el(*kids):
            return C.El(nm, *kids, ws=True, void=void)
        i = C.El("i", ws=False)
        spec = {"t": lambda: el(C.T(t)), "e": lambda: C.El("div", el(), C.T(t)),
                "k": lambda: el(i, C.T(t)), "n": lambda: el(el(C.T(t), i)),
                "p": lambda: C.El("div", i, el(), el(el()), C.T(t))}[sh["ctx"]]()
        check(S, spec, "any element name", S.int("indent", 0, 60))
    elif k == "attrs":
        v = S.str("v", 2)
        f = S.flag("f")
        spec = C.El("div", C.El("p", C.T("x"), attrs=[("a", v), ("b", v)]),
                    C.El("a", C.T("y"), attrs=[("href", v)], ws=False),
                    C.El("hr", attrs=[("c", v)]), attrs=[("d", v)])
        check(S, spec, "layout with attributes", S.int("indent", 0, 60))
    elif k == "raw":
        t = S.str("t", 9)
        nm = S.pick("n", ["script", "style"])
        check(S, C.El("div", C.El(nm, C.T(t), raw=True), C.El(nm, raw=True)), "script/style layout",
              S.int("indent", 0, 60))
        check(S, C.El(nm, C.T(t), C.T("a<b"), C.H(t), raw=True), "script/style with several parts",
              S.int("indent", 0, 60))
    elif k == "single":
        # exactly one visible child
        t = S.str("t", 5)
        c = S.pick("c", ["t", "n", "h", "r", "i", "b", "v", "w"])
        x = {"t": C.T(t), "n": C.N(S.int("v", -99, 99)), "h": C.H(t), "r": C.R(t),
             "i": C.El("i", C.T(t), ws=False), "b": C.El("p", C.T(t)), "v": C.El("br", ws=False),
             "w": C.El("hr")}[c]
        m = S.choice("m", 4)
        kids = [[x], [C.M(), x], [x, C.D("d")], [C.M(), C.M(), x, C.M()]][m]
        check(S, C.El("div", *kids), "one child", S.int("indent", 0, 60), S.str("eol", 1))
        check(S, C.L(C.El("div", *kids), C.El("div", *kids)), "one child, in a list",
              S.int("indent", 0, 60), S.str("eol", 1))
    elif k == "expand":
        t = S.str("t", 1)
        x = C.Expander(lambda: ht.TagList(ht.Tag("p", t), t, ht.Tag("b", _add_ws=False)))
        p, s, b = C.El("p", C.T(t)), C.T(t), C.El("b", ws=False)
        out = ht.Tag("div", x, x, "q").render()["html"]
        S.check_match(out, expect(C.El("div", p, s, b, p, s, b, C.T("q")), 0, "\n"),
                      "layout after expansion")
        one = C.Expander(lambda: t)
        S.check_match(ht.Tag("div", one).render()["html"],
                      expect(C.El("div", C.T(t)), 0, "\n"), "single text from an expansion")
        none = C.Expander(lambda: ht.TagList())
        S.check_match(ht.Tag("div", none, none).render()["html"],
                      expect(C.El("div"), 0, "\n"), "empty expansions")
    elif k == "default":
        # the documented defaults: indent 0, "\n"
        t = S.str("t", 1)
        spec = C.El("div", C.El("p", C.T(t), C.El("hr")), C.T(t))
        obj = C.build(S, spec)
        for out in (obj.get_html_string(), str(obj), repr(obj), obj.render()["html"],
                    obj._repr_html_(), obj.get_html_string(indent=0), obj.get_html_string(eol="\n")):
            S.check_match(out, expect(spec, 0, "\n"), "default layout arguments")
        for out in (ht.TagList(obj, t).get_html_string(indent=2, eol="\r\n"),
                    ht.TagList(obj, t).get_html_string(2, "\r\n", add_ws=True)):
            S.check_match(out, C.lines([spec, C.T(t)], 2, "\r\n"), "layout arguments of a list")
