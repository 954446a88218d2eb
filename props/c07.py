"""C07  Metadata nodes leave no trace in the markup."""
from symx import pat
from props import common as C

ENCODED = ["Tag.get_html_string", "TagList.get_html_string", "Tag.render", "TagList.render",
           "Tag.tagify", "TagList.tagify", "TagList.get_dependencies", "HTMLDocument.render"]
BOUNDS = {
    "quick": "every forest of up to 3 visible nodes over {block, inline, inline void, block void, "
             "text, HTML(), _repr_html_ object}, each of the positions of each child list taking "
             "0, 1 or 2 metadata nodes or dependencies (solver-chosen, all subsets); any element "
             "name; fan-out and depth 12; indent 0..40; eol of up to 2 characters"
             "; 150 metadata nodes in one list, 70 levels; dependencies of subclasses; "
             "metadata added in every way; raw-text elements; documents",
    "thorough": "forests of up to 4 visible nodes",
}
COVER = ["meta", "none"]
KINDS = "BIVWTHR"
NAME1 = C.X.cs_of("abcdefghijklmnopqrstuvwxyz")
NAMEC = C.X.cs_of("abcdefghijklmnopqrstuvwxyz-0123456789")


def shapes(tier):
    out = []
    n = 2 if tier == "quick" else 3
    for p in C.prefixes(KINDS, 2):
        out.append(dict(kind="tree", pre=p, n=n))
    for p in C.prefixes("BIT", 2):
        out.append(dict(kind="tree", pre=p, n=n + 1, kinds="BIT", few=True))
    out += [dict(kind="name", m=m) for m in range(6)]
    out += [dict(kind="layout", i=i) for i in range(6)]
    out += [dict(kind="wide"), dict(kind="deep", n=12), dict(kind="deep", n=70), dict(kind="deps"), dict(kind="ways"),
            dict(kind="subclass"), dict(kind="doc"), dict(kind="raw"), dict(kind="many", n=20),
            dict(kind="many", n=150)]
    return out


class Meta2:
    pass


def mk(S, what, i=0):
    ht = S.ht
    if what == "m":
        return [ht.MetadataNode()]
    if what == "d":
        return [ht.HTMLDependency("dep%d" % i, "1.0", source={"href": "x"}, script={"src": "s.js"},
                                  head="<meta>")]
    if what == "mm":
        return [ht.MetadataNode(), ht.HTMLDependency("dp%d" % i, "2.0", head="x")]
    return []


def insert_all(S, tag, name, few=False):
    """Insert metadata nodes at solver-chosen positions of every child list."""
    ht = S.ht
    n = 0
    kids = tag if isinstance(tag, ht.TagList) else tag.children
    for i in range(len(kids), -1, -1):
        nm = "%s.%d" % (name, i)
        w = S.pick(nm, ["", "m"] if few or i else ["", "m", "mm"])
        for x in mk(S, w, i):
            kids.insert(i, x)
            n += 1
    for j, c in enumerate(list(kids)):
        if isinstance(c, ht.Tag):
            n += insert_all(S, c, "%s.%d" % (name, j), few)
    return n


def same(S, a, b, label, lay=()):
    out = a.get_html_string(*lay)
    S.observe(out)
    S.check_eq(out, b.get_html_string(*lay), label)


def run(S, sh):
    ht = S.ht
    k = sh["kind"]
    if k == "tree":
        kinds = sh.get("kinds", KINDS)
        kids = C.Gen(S, kinds, sh["n"], sh["pre"]).forest(stop=False)
        a = ht.TagList(*[C.build(S, c) for c in kids])
        b = ht.TagList(*[C.build(S, c) for c in kids])
        n = insert_all(S, a, "i", sh.get("few", False))
        S.covers("meta" if n else "none")
        same(S, a, b, "metadata in a list")
        S.check_eq(a.render()["html"], b.render()["html"], "metadata in a rendered list")
        same(S, ht.Tag("div", a), ht.Tag("div", b), "metadata in a block tag")
        same(S, ht.Tag("span", a, _add_ws=False), ht.Tag("span", b, _add_ws=False),
             "metadata in an inline tag")
    elif k == "name":
        nm = S.str("tag", 10, 1, cs=NAMEC, first=NAME1)
        ws = S.flag("ws")
        t = S.str("t", 1)
        m = sh["m"]
        M, D = ht.MetadataNode(), ht.HTMLDependency("d", "1")

        def tag(*kids):
            return ht.Tag(nm, *kids, _add_ws=ws)
        pairs = [((M,), ()), ((D, M, D), ()), ((M, t), (t,)), ((t, D), (t,)),
                 ((M, t, D, t, M), (t, t)), ((t, M, ht.Tag("p"), D), (t, ht.Tag("p")))]
        a, b = pairs[m]
        same(S, tag(*a), tag(*b), "metadata in an element of any name")
        same(S, ht.TagList(M, tag(*a), D, tag(*a), M), ht.TagList(tag(*b), tag(*b)),
             "metadata between elements of any name")
    elif k == "layout":
        t = S.str("t", 1)
        eol = S.str("eol", 2)
        ind = S.int("indent", 0, 40)
        i, p = ht.Tag("i", t, _add_ws=False), ht.Tag("p", t)
        kids = [[t], [i, t], [p, p], [t, p, t], [ht.Tag("ul", ht.Tag("li"), ht.Tag("li", p)), i],
                [ht.HTML(t), C.ReprObj(t), p, ht.Tag("hr")]][sh["i"]]
        a = []
        for j, x in enumerate(kids + [None]):
            a += mk(S, S.pick("w%d" % j, ["", "m", "d", "mm"]), j)
            if x is not None:
                a.append(x)
        for f in (ht.TagList, lambda *q: ht.Tag("div", *q),
                  lambda *q: ht.Tag("span", *q, _add_ws=False),
                  lambda *q: ht.Tag("div", ht.Tag("section", *q))):
            same(S, f(*a), f(*kids), "metadata under any layout", (ind, eol))
        out = ht.TagList(*a).get_html_string(ind, eol, add_ws=False)
        S.check_eq(out, ht.TagList(*kids).get_html_string(ind, eol, add_ws=False),
                   "metadata in an add_ws=False list")
    elif k in ("wide", "many"):
        kids = [ht.Tag("p"), "x", ht.Tag("b", _add_ws=False), "y", C.ReprObj("r"), ht.Tag("hr"),
                ht.Tag("br", _add_ws=False), "z", "w", ht.Tag("div", "q"), ht.HTML("h"), "e"]
        if k == "wide":
            at, nn = S.choice("at", 13), 1 + S.choice("nn", 12)
        else:
            at, nn = S.choice("at", 3) * 6, sh["n"]
        a = list(kids)
        a[at:at] = [ht.MetadataNode() if j % 2 else ht.HTMLDependency("d%d" % j, "1")
                    for j in range(nn)]
        for f in (ht.TagList, lambda *q: ht.Tag("div", *q), lambda *q: ht.Tag("b", *q, _add_ws=False)):
            same(S, f(*a), f(*kids), "runs of metadata")
    elif k == "deep":
        lvl = C.spot(S, sh["n"], "lvl")
        first = S.flag("first")
        t = S.str("t", 1)

        def mkt(meta):
            x = ht.Tag("b", t, _add_ws=False)
            for i in range(sh["n"]):
                kids = [x, "q"] if i % 3 == 0 else [x]
                if meta and i == lvl:
                    kids = [ht.MetadataNode()] + kids if first else kids + [ht.MetadataNode()]
                x = ht.Tag("div", *kids, _add_ws=bool(i % 4))
            return x
        same(S, mkt(True), mkt(False), "metadata at any depth")
    elif k == "deps":
        # they still show up in the dependency list
        w = [S.pick("w%d" % j, ["", "m", "d", "mm"]) for j in range(4)]
        objs = [mk(S, x, j) for j, x in enumerate(w)]
        tree = ht.TagList(objs[0], ht.Tag("br", objs[1]), ht.Tag("p", objs[2], "x", objs[3]))
        r = tree.render()
        S.check_eq(r["html"], ht.TagList(ht.Tag("br"), ht.Tag("p", "x")).render()["html"],
                   "markup without metadata")
        exp = [o.name for os in objs for o in os if isinstance(o, ht.HTMLDependency)]
        S.check([d.name for d in r["dependencies"]] == exp, "dependency list")
    elif k == "ways":
        t = S.str("t", 1)
        M = ht.MetadataNode
        a = ht.Tag("div")
        b = ht.Tag("div")
        w = S.choice("w", 6)
        if w == 0:
            a.append(M(), t, M())
            b.append(t)
        elif w == 1:
            a.extend([M(), ht.HTMLDependency("a", "1")])
        elif w == 2:
            a.append(t)
            b.append(t)
            a.insert(0, M())
            a.insert(2, [M(), M()])
        elif w == 3:
            a.append(C.Expander(lambda: M()), t)
            b.append(t)
            a = a.tagify()
        elif w == 4:
            a.append(C.Expander(lambda: ht.TagList(M(), t, M())))
            b.append(t)
            a = a.tagify()
        else:
            a.append([[M()], (M(), [t])], None)
            b.append(t)
        same(S, a, b, "metadata added any way")
        same(S, ht.TagList(a, "x"), ht.TagList(b, "x"), "metadata added any way (list)")
    elif k == "subclass":
        t = S.str("t", 1)

        class Mine(ht.MetadataNode):
            def __init__(self):
                self.data = "x"

        class Tagi(ht.MetadataNode):
            """Carries methods other nodes have; still metadata."""
            name, children, add_ws = "div", [], True

            def __str__(self):
                return "<visible>"

        class Dep2(ht.HTMLDependency):
            pass
        xs = [Mine(), Tagi(), Dep2("n", "1")]
        x = S.pick("x", xs)
        for kids in ([], [t], [t, t], [ht.Tag("p"), t]):
            for f in (lambda *q: ht.Tag("div", *q), lambda *q: ht.Tag("br", *q), ht.TagList):
                same(S, f(x, *kids, x), f(*kids), "metadata subclasses")
                if kids:
                    same(S, f(kids[0], x, *kids[1:]), f(*kids), "metadata subclasses")
    elif k == "doc":
        t = S.str("t", 1)
        w = S.choice("w", 4)
        M = ht.MetadataNode()
        a = [M, ht.Tag("p", M), t, M] if w < 2 else [ht.Tag("body", M, t, M)] if w == 2 else \
            [ht.Tag("html", M, ht.Tag("head", M), M, ht.Tag("body", t, M))]
        b = [ht.Tag("p"), t] if w < 2 else [ht.Tag("body", t)] if w == 2 else \
            [ht.Tag("html", ht.Tag("head"), ht.Tag("body", t))]
        out = ht.HTMLDocument(*a).render()["html"]
        S.observe(out)
        S.check_eq(out, ht.HTMLDocument(*b).render()["html"], "metadata in a document")
    elif k == "raw":
        t = S.str("t", 7)
        nm = S.pick("n", ["script", "style", "textarea", "pre", "title"])
        M = ht.MetadataNode()
        same(S, ht.Tag(nm, M, t, M), ht.Tag(nm, t), "metadata next to raw text")
        same(S, ht.Tag(nm, t, M, t), ht.Tag(nm, t, t), "metadata between raw text")
