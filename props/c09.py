"""C09  Tagifiable objects render as their expansion, spliced in place."""
import itertools

from props import common as C
from props.common import D, El, H, L, N, R, T

ENCODED = ["TagList.tagify", "Tag.tagify", "Tag.__copy__", "TagList.render", "Tag.render",
           "TagList.get_html_string", "Tag.get_html_string", "TagList.get_dependencies",
           "HTMLDocument.render", "HTMLDocument._gen_html_tag_tree",
           "HTMLDocument._hoist_head_content", "_tagchilds_to_tagnodes"]
BOUNDS = {
    "quick": "every forest of up to 3 nodes over {block tag, inline tag, text, dependency, "
             "tagifiable} (and every list of up to 3 siblings over {text, block, tagifiable}), "
             "each tagifiable with any of 14 expansions (TagList of 0..3 items incl. nested "
             "expansions, tag, str, HTML(), dependency), under a list, a tag or a document; text "
             "is one symbolic character"
             "; expansions of subclasses of TagList and Tag and of empty strings; tagifiables "
             "inside the head and dependency heads; raising expansions; the same object twice;"
             " 120 siblings and large nestings",
    "thorough": "forests of up to 4 nodes, sibling lists of up to 4",
}
COVER = ["empty", "spliced", "single", "unexpanded", "doc"]
ASSUMPTIONS = ["an object's own tagify() returns fully tagified content, as the Tagifiable protocol "
               "documents; nested expansions are produced by expanding them inside that call"]

FORMS = ("L0", "L1", "L2", "Ld", "Ln", "LL", "B", "I", "str", "html", "dep", "Bn", "num", "both",
         "Lsub", "Bsub", "str0")


def shapes(tier):
    n = 3 if tier == "quick" else 4
    out = []
    for root in ("list", "tag") if n == 3 else ("list", "tag", "itag"):
        for p in C.prefixes("BITDX", 2, True):
            if n == 3 and "X" not in p and p[1:] == ".":
                continue
            out.append(dict(kind="gen", root=root, pre=p, n=n))
    for root in ("list", "itag", "doc") if n == 3 else ("list", "tag", "itag", "doc"):
        for f in FORMS:
            if f in ("Lsub", "Bsub", "str0") and root != "list":
                continue
            out.append(dict(kind="sib", root=root, f=f, n=n))
    for k in ("html", "body"):
        out.append(dict(kind="doc", what=k))
    for root in ("list", "tag", "deep", "first", "script", "dephead"):
        out.append(dict(kind="raise", root=root))
    out.append(dict(kind="same"))
    out.append(dict(kind="append"))
    out.append(dict(kind="fresh"))
    out += [dict(kind="inhead", f=f) for f in FORMS]
    out += [dict(kind="large", w=w) for w in range(5)]
    return out


class X(C.Node):
    """A tagifiable spec node with its expansion."""

    def __init__(self, form, kids):
        C.Node.__init__(self, "x", form=form, kids=kids)

    def make(self, S):
        ht = S.ht
        f = self.form
        if f in ("Ln", "LL"):
            # the object expands what it contains itself
            if f == "LL":
                return ht.TagList(ht.TagList(*[C.build(S, k) for k in self.kids[:2]]),
                                  [C.build(S, k) for k in self.kids[2:]], None).tagify()
            return ht.TagList(*[C.build(S, k) for k in self.kids]).tagify()
        if f == "Lsub":
            return C.subs(ht).Items(*[C.build(S, k) for k in self.kids])
        if f == "Bsub":
            return C.subs(ht).Card("q", *[C.build(S, k) for k in self.kids[0].kids])
        if f[0] == "L":
            return ht.TagList(*[C.build(S, k) for k in self.kids])
        if f == "Bn":
            return C.build(S, self.kids[0]).tagify()
        if f == "num":
            return "7"
        return C.build(S, self.kids[0])


def expansion(S, form, i):
    S.covers("empty" if form == "L0" else "spliced" if form[0] == "L" else "single")
    t = T(S.str("x%d" % i, 1, 1)) if i < 2 else T("k%d<" % i)
    if form == "L0":
        return X(form, [])
    if form == "L1":
        return X(form, [t])
    if form == "L2":
        return X(form, [El("p", t), T("u&")])
    if form == "Ld":
        return X(form, [D("e%d" % i), El("i", t, ws=False), D("shared", "1.%d" % i)])
    if form == "Ln":
        return X(form, [X("L0", []), t, X("L2", [El("u", ws=False), T("n")]), X("str", [T("m")])])
    if form == "LL":
        return X(form, [t, El("p"), X("L1", [T("z")])])
    if form == "Lsub":
        return X(form, [t, El("p", T("u")), D("e%d" % i)])
    if form == "Bsub":
        return X(form, [El("div", t, D("e%d" % i), attrs=[("class", "card"), ("data-mine", "q")])])
    if form == "B":
        return X(form, [El("p", t, D("e%d" % i), attrs=[("id", "q")])])
    if form == "I":
        return X(form, [El("i", t, ws=False)])
    if form == "str0":
        return X(form, [T("")])
    if form == "str":
        return X(form, [t])
    if form == "html":
        return X(form, [H(t.s)])
    if form == "dep":
        return X(form, [D("e%d" % i)])
    if form == "Bn":
        return X(form, [El("p", X("L0", []), t, X("L2", [T("a"), El("b", ws=False)]))])
    if form == "num":
        return X(form, [T("7")])
    x = X("B", [El("p", t)])
    x.both = True
    return x


def build(S, n):
    if n.kind == "x" and getattr(n, "both", False):
        return C.ReprExpander(lambda: n.make(S), "REPR")
    if n.kind == "el":
        attrs = {a[0]: a[1] for a in n.attrs}
        return C.tag_class(S.ht, n)(n.name, attrs, *[build(S, c) for c in n.kids], _add_ws=n.ws)
    return C.build(S, n)


def expand(kids):
    """The forest with every tagifiable replaced by its expansion."""
    out = []
    for k in kids:
        if k.kind == "x":
            out.extend(expand(k.kids))
        elif k.kind == "el":
            out.append(El(k.name, *expand(k.kids), ws=k.ws, attrs=k.attrs))
        else:
            out.append(k)
    return out


def deps_of(kids):
    out = []
    for k in kids:
        if k.kind == "d":
            out.append(k)
        elif k.kind == "el":
            out.extend(deps_of(k.kids))
    return out


def resolved(kids):
    best = {}
    for d in deps_of(kids):
        v = tuple(int(x) for x in d.version.split("."))
        if d.name not in best or v > best[d.name][0]:
            best[d.name] = (v, d)
    return [(n, b[1].version) for n, b in best.items()]


def compare(S, kids, root):
    ht = S.ht
    repl = expand(kids)
    if root == "list":
        a = ht.TagList(*[build(S, k) for k in kids])
        b = ht.TagList(*[build(S, k) for k in repl])
    elif root in ("tag", "itag"):
        nm, ws = ("div", True) if root == "tag" else ("span", False)
        a = ht.Tag(nm, *[build(S, k) for k in kids], _add_ws=ws)
        b = ht.Tag(nm, *[build(S, k) for k in repl], _add_ws=ws)
    else:
        a = b = None
    exp = resolved(repl)
    if a is not None:
        ra, rb = a.render(), b.render()
        S.check_eq(ra["html"], rb["html"], "render() equals the expanded tree's")
        got = [(d.name, str(d.version)) for d in ra["dependencies"]]
        S.check(got == exp, "dependencies of the expansions are reported")
        S.check([(d.name, str(d.version)) for d in rb["dependencies"]] == exp,
                "dependencies of the expanded tree")
        t = a.tagify()
        S.check(not unexpanded(S, t), "nothing is left unexpanded")
        S.check_eq(t.get_html_string(), rb["html"], "tagify() then get_html_string()")
        S.observe(ra["html"])
        da, db = ht.HTMLDocument(a), ht.HTMLDocument(b)
    else:
        da = ht.HTMLDocument(*[build(S, k) for k in kids])
        db = ht.HTMLDocument(*[build(S, k) for k in repl])
    S.covers("doc")
    ra, rb = da.render(), db.render()
    S.check_eq(ra["html"], rb["html"], "HTMLDocument.render() equals the expanded tree's")
    S.check([(d.name, str(d.version)) for d in ra["dependencies"]] == exp,
            "document dependencies of the expansions are reported")
    S.observe(ra["html"])


def unexpanded(S, x):
    kids = x.children if isinstance(x, S.ht.Tag) else x
    for c in kids:
        if isinstance(c, C.Expander):
            return True
        if isinstance(c, S.ht.Tag) and unexpanded(S, c):
            return True
    return False


class Gen(C.Gen):
    def node(self, k, depth):
        if k == "X":
            self.nx = getattr(self, "nx", -1) + 1
            f = FORMS[:14] if self.nx == 0 else ("L0", "L2", "Ln", "B", "str", "dep", "Ld")
            return expansion(self.S, self.S.pick("f%d" % self.nx, f), self.nx)
        return C.Gen.node(self, k, depth)


def run(S, sh):
    ht = S.ht
    k = sh["kind"]
    if k == "gen":
        g = Gen(S, "BITDX", sh["n"], sh["pre"], texts=1)
        kids = g.forest(stop=False)
        if "x" not in kinds(kids):
            return
        compare(S, kids, sh["root"])
    elif k == "sib":
        kids = [expansion(S, sh["f"], 0)]
        for i in range(1, sh["n"]):
            w = S.pick("w%d" % i, ("",) + ("T", "B") + ("L0", "L1", "L2", "Ld", "Ln", "B1", "str",
                                                       "dep"))
            if not w:
                break
            n = T("t%d" % i) if w == "T" else El("div", T("d")) if w == "B" else \
                expansion(S, {"B1": "B"}.get(w, w), i)
            if S.flag("before%d" % i):
                kids.insert(0, n)
            else:
                kids.append(n)
        compare(S, kids, sh["root"])
    elif k == "doc":
        # the sole content expands to <html> or <body>
        s = S.str("s", 1, 1)
        if sh["what"] == "html":
            tree = El("html", *([El("head", El("title", T("t")))] if S.flag("head") else []),
                      El("body", T(s), D("d")), attrs=[("class", "c")])
        else:
            tree = El("body", T(s), D("d"), attrs=[("id", "b")])
        wrap = S.pick("wrap", ["tag", "list", "nested"])
        x = X({"tag": "B", "list": "L1", "nested": "Ln"}[wrap],
              [tree] if wrap != "nested" else [X("L0", []), X("B", [tree])])
        kids = [x]
        if S.flag("more"):
            kids.insert(0, X("L0", []))
        attrs = {"lang": "en"} if S.flag("attrs") else {}
        da = ht.HTMLDocument(*[build(S, q) for q in kids], **attrs)
        db = ht.HTMLDocument(*[build(S, q) for q in expand(kids)], **attrs)
        lp = S.pick("lp", ["lib", None])
        ra = da.render(lib_prefix=lp)
        rb = db.render(lib_prefix=lp)
        S.check_eq(ra["html"], rb["html"], "HTMLDocument.render() equals the expanded tree's")
        S.check([d.name for d in ra["dependencies"]] == ["d"], "document dependencies")
        S.observe(ra["html"])
    elif k == "raise":
        both = S.flag("both")
        o = C.ReprExpander(lambda: "E", "REPR") if both else C.Expander(lambda: "E")
        i = S.choice("at", 3)
        s = S.str("s", 1, 1)
        sibs = [["x", o, ht.Tag("b")], [o], [ht.MetadataNode(), o, s]][i]
        r = sh["root"]
        if r == "list":
            x = ht.TagList(*sibs)
        elif r == "tag":
            x = ht.Tag(S.pick("n", ["div", "br", "title"]), *sibs, _add_ws=S.flag("ws"))
        elif r == "deep":
            x = ht.TagList(s, ht.Tag("div", ht.Tag("span", *sibs, _add_ws=False)))
        elif r == "first":
            x = ht.Tag("div", ht.Tag("p", o), *sibs)
        elif r == "script":
            x = ht.Tag(S.pick("n", ["script", "style"]), *sibs)
        else:
            x = ht.HTMLDependency("d", "1", head=ht.TagList(*sibs))
            out, exc = S.attempt(x.serialize_to_script_json)
            S.check((exc is None) == both, "serialised head with an unexpanded object raises")
            out, exc = S.attempt(lambda: x.as_dict()["head"])
            S.check((exc is None) == both, "markup of an unexpanded object raises")
            return
        S.covers("unexpanded")
        out, exc = S.attempt(x.get_html_string)
        if both:
            S.check(exc is None and S.contains(out, "REPR"), "a self-rendering object renders itself")
        else:
            S.check(exc is not None, "markup of an unexpanded object raises")
        out, exc = S.attempt(x.get_html_string, 2, "")
        S.check((exc is None) == both, "markup of an unexpanded object raises")
        # while rendering expands it
        h = x.render()["html"]
        S.check(S.contains(h, "E") and not S.contains(h, "REPR"), "render() expands the object")
    elif k == "same":
        # one object at several places, expanded independently
        node = expansion(S, S.pick("f", FORMS), 0)
        o = build(S, node)
        r = expand([node])
        b = [[build(S, q) for q in r] for _ in range(4)]
        where = S.choice("where", 3)
        if where == 0:
            x = ht.TagList(o, o, "m", o)
            y = ht.TagList(b[0], b[1], "m", b[2])
        elif where == 1:
            x = ht.TagList(o, ht.Tag("p", o, ht.Tag("i", o, o, _add_ws=False)))
            y = ht.TagList(b[0], ht.Tag("p", b[1], ht.Tag("i", b[2], b[3], _add_ws=False)))
        else:
            p = ht.Tag("p", o)
            q = ht.Tag("p", b[0])
            x = ht.Tag("div", p, o, p)
            y = ht.Tag("div", q, b[1], q)
        S.check_eq(x.render()["html"], y.render()["html"], "render() equals the expanded tree's")
        S.check_eq(x.render()["html"], y.render()["html"], "rendering again gives the same")
        S.check([d.name for d in x.render()["dependencies"]] == [n for n, _ in resolved(r)],
                "dependencies of the expansions are reported")
    elif k == "inhead":
        # in the <head> markup of a dependency
        node = expansion(S, sh["f"], 0)
        deep = S.flag("deep")

        def mk(mid):
            d = ht.HTMLDependency("h", "1", head=ht.TagList("m", *mid(), ht.Tag("i")))
            if deep:
                d = ht.HTMLDependency("o", "2", head=ht.Tag("title", d, "x"))
            return d

        def pair():
            return (mk(lambda: [build(S, node)]),
                    mk(lambda: [build(S, q) for q in expand([node])]))
        w = S.pick("where", ["list", "tag", "doc"])
        a, b = pair()
        if w == "doc":
            a, b = ht.HTMLDocument("t", a), ht.HTMLDocument("t", b)
        elif w == "list":
            a, b = ht.TagList("t", a), ht.TagList("t", b)
        else:
            a, b = ht.Tag("p", "t", ht.Tag("b", a)), ht.Tag("p", "t", ht.Tag("b", b))
        ra, rb = a.render(), b.render()
        S.check_eq(ra["html"], rb["html"], "render() equals the expanded tree's")
        names = (["o", "h"] if deep else ["h"]) + [n for n, _ in resolved(expand([node]))]
        for r in (ra, rb):
            S.check([d.name for d in r["dependencies"]] == names,
                    "dependencies of expansions in a dependency's head are reported")
        if w != "doc":
            ra, rb = ht.HTMLDocument(a).render(), ht.HTMLDocument(b).render()
            S.check_eq(ra["html"], rb["html"], "HTMLDocument.render() equals the expanded tree's")
            S.check([d.name for d in ra["dependencies"]] == names, "document dependencies")
        S.observe(ra["html"])
    elif k == "large":
        # many children, levels or expansions
        f = S.pick("f", FORMS)
        w = sh["w"]
        x = expansion(S, f, 0)
        if w == 0:
            at = S.pick("at", [0, 40, 119])
            kids = [x if i == at else [T("k%d" % i), El("p"), D("d%d" % (i % 9), "1.%d" % i),
                                       El("i", T("q"), ws=False)][i % 4] for i in range(120)]
        elif w == 1:
            kids = [x]
            for i in range(50):
                kids = [El("div", *([T("t")] if i % 3 else []), *kids, ws=i % 5 != 0)]
        elif w == 2:
            at = S.pick("at", [0, 33, 79])
            kids = [x if i == at else expansion(S, ("L0", "L2", "Ln", "B", "str", "dep", "Ld")[i % 7],
                                                i + 2) for i in range(80)]
        elif w == 3:
            kids = [X("L2", [El("p", T("n%d" % i)) if i % 2 else T("m") for i in range(100)]
                      + [D("e"), T(S.str("s", 1, 1))]), x]
        else:
            kids = [x]
            for i in range(25):
                kids = [X("Ln", [*kids, T("t")])]
        if w == 4 and f == "both":
            return
        compare(S, kids, S.pick("root", ["list", "tag"]))
    elif k == "append":
        node = expansion(S, S.pick("f", FORMS), 0)
        d = ht.HTMLDocument("a", lang="x")
        d.append(build(S, node), "b")
        e = ht.HTMLDocument("a", *[build(S, q) for q in expand([node])], "b", lang="x")
        S.check_eq(d.render()["html"], e.render()["html"],
                   "HTMLDocument.render() equals the expanded tree's")
    else:
        # what the object returns may be shared between calls
        s = S.str("s", 1, 1)
        form = S.pick("f", ["tag", "list", "dep"])
        one = {"tag": lambda: ht.Tag("p", s), "list": lambda: ht.TagList(s, ht.Tag("p")),
               "dep": lambda: ht.HTMLDependency("d", "1")}[form]()
        o = C.Expander(lambda: one)
        x = ht.Tag("div", o, o, "t")
        y = {"tag": lambda: ht.Tag("div", ht.Tag("p", s), ht.Tag("p", s), "t"),
             "list": lambda: ht.Tag("div", s, ht.Tag("p"), s, ht.Tag("p"), "t"),
             "dep": lambda: ht.Tag("div", "t")}[form]()
        S.check_eq(x.render()["html"], y.render()["html"], "render() equals the expanded tree's")
        S.check_eq(x.render()["html"], y.render()["html"], "rendering again gives the same")
        da = ht.HTMLDocument(o).render()["html"]
        S.check_eq(ht.HTMLDocument(o).render()["html"], da, "rendering again gives the same")


def kinds(kids):
    out = ""
    for k in kids:
        out += k.kind[0] if k.kind == "x" else "."
        if k.kind == "el":
            out += kinds(k.kids)
    return out
