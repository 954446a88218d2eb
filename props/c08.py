"""C08  Rendering and tagify are pure and consistent; tagify returns an independent copy."""
import copy
import os
import shutil
import tempfile

from props import common as C
from props.common import D, El, H, M, N, R, T

ENCODED = ["Tag.tagify", "TagList.tagify", "Tag.__copy__", "HTMLDependency.__copy__", "Tag.render",
           "TagList.render", "get_html_string", "get_dependencies", "_resolve_dependencies",
           "_render_tag_or_taglist", "HTMLDocument.render", "HTMLDocument.save_html",
           "HTMLDocument._gen_html_tag_tree", "HTMLDocument._hoist_head_content",
           "HTMLDependency.as_dict", "as_html_tags", "source_path_map", "serialize_to_script_json",
           "_equals_impl"]
BOUNDS = {
    "quick": "every forest of up to 3 nodes over {block, inline, void, text, HTML(), self-rendering, "
             "metadata, dependency} plus 9 fixed documents (html/body/head roots, tagifiables, nested "
             "dependencies), every ordered pair of 14 read-only operations, every single mutation of "
             "12 kinds at any node of the copy or of the original; equality over symbolic names, "
             "attribute names and values, texts and dependency fields; text is one symbolic character"
             "; subclasses of Tag, TagList, HTMLDependency, MetadataNode and HTML; 120 "
             "children, 50 levels, 100 attributes; copies of copies; saved documents",
    "thorough": "forests of up to 4 nodes; triples of operations",
}
COVER = ["mutated", "equal", "different", "saved"]
KINDS = "BIVTHRMD"
OPS = ("tagify", "render", "str", "repr", "_repr_html_", "html", "html2", "deps", "alldeps", "copy",
       "doc", "doc2", "docsame", "eq", "save")
DEPOPS = ("tags", "tags2", "dict", "map", "json", "json2", "copy", "str", "repr", "eq")


def shapes(tier):
    out = []
    n = 3 if tier == "quick" else 4
    for p in C.prefixes(KINDS, 2):
        out.append(dict(kind="gen", pre=p, n=n))
    for f in FIXED:
        out.append(dict(kind="ops", f=f, n=2 if tier == "quick" else 3))
        out.append(dict(kind="mut", f=f))
        out.append(dict(kind="same", f=f))
    out += [dict(kind="docops", f=f) for f in DOCS]
    out += [dict(kind="depops", src=q) for q in ("sub", "href", "none")]
    out += [dict(kind="docargs"), dict(kind="save"), dict(kind="chain")]
    out += [dict(kind="large", w=w) for w in ("wide", "deep", "attrs")]
    out += [dict(kind="eq", w=w) for w in ("name", "ws", "attr", "attrs", "text", "kids", "nest", "kind",
                                           "dep", "depver", "list", "used", "copy")]
    return out


def dep(S, i=0, head=True):
    ht = S.ht
    return ht.HTMLDependency(
        "d%d" % i, "1.%d" % i, source={"subdir": "sub"},
        script=[{"src": "a.js", "defer": "x"}, {"src": "b c.js"}], stylesheet={"href": "a.css"},
        meta=[{"name": "m", "content": "c"}],
        head=ht.TagList(ht.Tag("title", "h", ht.Tag("b")), "x") if head else None)


def fixed(S, f):
    """A tree of the given family (fresh objects)."""
    ht = S.ht
    s = S.str("s", 1, 1)
    if f == "plain":
        return ht.Tag("div", {"id": s, "class": "a"}, s, ht.Tag("p", "x", ht.Tag("i", _add_ws=False)))
    if f == "deps":
        return ht.Tag("div", dep(S), ht.Tag("p", dep(S, 1), s), ht.MetadataNode())
    if f == "list":
        return ht.TagList(s, dep(S), ht.Tag("p", ht.Tag("b", s), ht.HTML("<i>")), C.ReprObj("<r/>"))
    if f == "html":
        return ht.Tag("html", ht.Tag("head", ht.Tag("title", s), dep(S)),
                      ht.Tag("body", s, dep(S, 1)), {"class": "q"})
    if f == "htmlnohead":
        return ht.Tag("html", ht.Tag("body", s, dep(S)))
    if f == "body":
        return ht.Tag("body", {"id": "b"}, s, dep(S), ht.Tag("script", "a<b"))
    if f == "head":
        return ht.TagList(ht.head_content(ht.Tag("title", "x")), s, ht.Tag("head", dep(S)))
    if f == "exp":
        return ht.Tag("div", C.Expander(lambda: ht.TagList("e", dep(S), ht.Tag("p"))), s,
                      C.Expander(lambda: ht.Tag("b", "e")))
    if f == "htmldep":
        h = ht.HTML(s)
        return ht.TagList(ht.Tag("p", h, h), ht.Tag("p", {"title": h}), dep(S, 0, False))
    if f == "sub":
        sub = C.subs(ht)
        return sub.Card(s, ht.Tag("p", s), sub.Items(sub.Card("u", "v"), s), sub.Dep("g"),
                        sub.Meta("m"))
    if f == "sublist":
        sub = C.subs(ht)
        return sub.Items(s, sub.Card("t", sub.Meta("k"), sub.Dep("g")), ht.Tag("b", _add_ws=False))
    # depth
    return ht.Tag("div", ht.Tag("div", ht.Tag("div", ht.Tag("div", dep(S), s), s), ht.Tag("hr")))


FIXED = ("plain", "deps", "list", "html", "htmlnohead", "body", "head", "exp", "htmldep", "deep",
         "sub", "sublist")
DOCS = ("html", "htmlnohead", "body", "deps", "head", "exp")


# -- structure ---------------------------------------------------------------------------
def snap(S, x):
    ht = S.ht
    if isinstance(x, str):
        return x
    if isinstance(x, ht.HTML):
        return ("html", x.as_string())
    if isinstance(x, ht.Tag):
        return ("tag", x.name, x.add_ws, extra(x), [(k, snap(S, v)) for k, v in x.attrs.items()],
                [snap(S, c) for c in x.children])
    if isinstance(x, ht.TagList):
        return ("list", extra(x), [snap(S, c) for c in x])
    if isinstance(x, ht.HTMLDependency):
        return ("dep", x.name, extra(x), str(x.version), snap(S, x.source), snap(S, x.script),
                snap(S, x.stylesheet), snap(S, x.meta), x.all_files, snap(S, x.head))
    if isinstance(x, dict):
        return ("dict", [(k, snap(S, v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ("seq", [snap(S, v) for v in x])
    if isinstance(x, ht.MetadataNode):
        return ("meta", type(x).__name__, extra(x))
    if isinstance(x, ht.HTMLDocument):
        return ("doc", snap(S, x._content), snap(S, x._html_attr_args))
    if x is None or isinstance(x, (bool, int, float)):
        return ("c", x)
    if isinstance(x, C.ReprObj):
        return ("repr", x.s)
    return ("obj", type(x).__name__)


def extra(x):
    """What a subclass adds."""
    return (type(x).__name__, getattr(x, "mine", None))


def same(S, a, b, label):
    """Compare two snapshots; one assertion per string, one for the rest."""
    conds = []
    ok = walk(S, a, b, conds)
    S.check(ok, label)
    if ok:
        for x, y in conds:
            S.check_eq(x, y, label)


def walk(S, a, b, conds):
    if isinstance(a, str) or isinstance(b, str):
        if not (isinstance(a, str) and isinstance(b, str)):
            return False
        if a is not b:
            conds.append((a, b))
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(walk(S, x, y, conds) for x, y in zip(a, b))
    return a == b


def nodes(S, x, out=None):
    """Every tag, list, attribute map and metadata object of a tree, the heads of its
    dependencies included."""
    ht = S.ht
    if out is None:
        out = []
    if isinstance(x, ht.Tag):
        out += [x, x.attrs, x.children]
        for c in x.children:
            nodes(S, c, out)
    elif isinstance(x, ht.TagList):
        out.append(x)
        for c in x:
            nodes(S, c, out)
    elif isinstance(x, ht.HTMLDependency):
        out.append(x)
        for v in (x.script, x.stylesheet, x.meta):
            out.append(v)
            out += list(v)
        if x.source is not None:
            out.append(x.source)
        if x.head is not None:
            nodes(S, x.head, out)
    elif isinstance(x, ht.MetadataNode):
        out.append(x)
    return out


def disjoint(S, a, b, label):
    ia = {id(o) for o in nodes(S, a)}
    S.check(not any(id(o) in ia for o in nodes(S, b)), label)


# -- operations ----------------------------------------------------------------------------
def op(S, name, x):
    """Run one read-only operation; returns a comparable result."""
    ht = S.ht
    if name == "tagify":
        return snap(S, x.tagify())
    if name == "render":
        r = x.render()
        return (r["html"], [snap(S, d) for d in r["dependencies"]])
    if name == "str":
        return str(x)
    if name == "repr":
        return repr(x)
    if name == "_repr_html_":
        return x._repr_html_()
    if name in ("html", "html2"):
        r, exc = S.attempt(x.get_html_string, *(() if name == "html" else (3, "")))
        return r if exc is None else ("exc", type(exc).__name__)
    if name in ("deps", "alldeps"):
        return [snap(S, d) for d in x.get_dependencies(dedup=name == "deps")]
    if name == "copy":
        return snap(S, copy.copy(x))
    if name == "eq":
        return (bool(x == x), bool(x == "q"))
    if name == "save":
        out = os.path.join(scratch(S), "o.html")
        src = os.path.join(scratch(S), "sub")
        if not os.path.isdir(src):
            os.makedirs(src)
            for f in ("a.js", "b c.js", "a.css"):
                open(os.path.join(src, f), "w").close()
        here = os.getcwd()
        os.chdir(scratch(S))
        try:
            r = x.save_html(out)
        finally:
            os.chdir(here)
        S.covers("saved")
        return r
    if name == "docsame":
        d = getattr(S, "doc", None)
        if d is None:
            d = S.doc = ht.HTMLDocument(x, lang="en", class_="z")
        r = d.render()
    elif name == "doc":
        r = ht.HTMLDocument(x).render()
    else:
        r = ht.HTMLDocument(x, lang="en", class_="z").render(lib_prefix=None, include_version=False)
    return (r["html"], [snap(S, d) for d in r["dependencies"]])


def depop(S, name, d):
    if name == "tags":
        return snap(S, d.as_html_tags())
    if name == "tags2":
        return snap(S, d.as_html_tags(lib_prefix=None, include_version=False))
    if name == "dict":
        return snap(S, d.as_dict(lib_prefix="x/y"))
    if name == "map":
        return snap(S, dict(d.source_path_map()))
    if name == "json":
        return snap(S, d.serialize_to_script_json())
    if name == "json2":
        return d.serialize_to_script_json(indent=2).get_html_string()
    if name == "copy":
        return snap(S, copy.copy(d))
    if name == "str":
        return str(d)
    if name == "repr":
        return repr(d)
    return bool(d == d) and not bool(d == 3)


def scratch(S):
    if not hasattr(S, "tmp"):
        S.tmp = tempfile.mkdtemp(prefix="symx-c08-")
    return S.tmp


def cleanup(S):
    if hasattr(S, "tmp"):
        shutil.rmtree(S.tmp, ignore_errors=True)


# -- mutations through the public API -----------------------------------------------------
MUTS = ("append", "insert", "extend", "set", "del", "attr", "attrset", "class", "style", "name",
        "clear", "delattr")
DMUTS = ("name", "script", "script0", "sheet0", "meta", "meta0", "source", "head", "headtag")


def mutate(S, x, what):
    """One mutation at a chosen node of the tree; returns False when it does not apply."""
    ht = S.ht
    ns = [n for n in nodes(S, x) if isinstance(n, (ht.Tag, ht.HTMLDependency, ht.TagList))]
    t = ns[S.choice("node%d" % len(ns), len(ns))]
    if isinstance(t, ht.HTMLDependency):
        m = S.pick("dm", DMUTS)
        if m == "name":
            t.name = "changed"
        elif m == "script":
            t.script.append({"src": "z.js"})
        elif m == "script0":
            if t.script:
                t.script[0]["src"] = "z.js"
        elif m == "sheet0":
            if t.stylesheet:
                t.stylesheet[0]["href"] = "z.css"
        elif m == "meta":
            t.meta.clear()
        elif m == "meta0":
            if t.meta:
                t.meta[0]["content"] = "z"
        elif m == "source":
            if t.source:
                t.source["subdir"] = "z"
        elif m == "head":
            if t.head is not None:
                t.head.append("z")
        elif t.head:
            for c in t.head:
                if isinstance(c, ht.Tag):
                    c.append("z")
                    c.attrs["z"] = "z"
        return
    if isinstance(t, ht.Tag):
        m = S.pick("m", MUTS)
    else:
        m = S.pick("lm", ("append", "insert", "extend", "set", "del", "clear"))
    kids = t.children if isinstance(t, ht.Tag) else t
    if m == "append":
        t.append("new", ht.Tag("u"))
    elif m == "insert":
        t.insert(0, "new")
    elif m == "extend":
        t.extend(["new", "er"])
    elif m == "set":
        if kids:
            kids[0] = "SET"
    elif m == "del":
        if kids:
            del kids[0]
    elif m == "clear":
        kids.clear()
    elif m == "attr":
        t.attrs.update({"id": "new", "zz": "y"})
    elif m == "attrset":
        t.attrs["class"] = "new"
    elif m == "class":
        t.add_class("new")
    elif m == "style":
        t.add_style("a:b;")
    elif m == "name":
        t.name = "changed"
        t.add_ws = not t.add_ws
    elif m == "delattr":
        t.attrs.clear()


def independent(S, make, which):
    ht = S.ht
    x = make()
    y = x.tagify()
    disjoint(S, x, y, "tagify() shares nothing with the original")
    mut, other = (y, x) if which else (x, y)
    before = snap(S, other)
    html = other.render()["html"]
    mutate(S, mut, which)
    S.covers("mutated")
    same(S, before, snap(S, other), "mutating one tree leaves the other alone")
    S.check_eq(other.render()["html"], html, "mutating one tree leaves the other's markup alone")


def fixpoint(S, x, plain=True, values=True):
    """values: every node can be compared by value (a bare MetadataNode cannot)."""
    y = x.tagify()
    z = y.tagify()
    if plain:
        same(S, snap(S, x), snap(S, y), "tagify() equals the original when nothing expands")
        if values:
            S.check(y == x and x == y, "tagify() == the original when nothing expands")
    same(S, snap(S, y), snap(S, z), "tagify() is a fixed point")
    if values:
        S.check(y == z and z == y, "tagify() == its own tagify()")
    disjoint(S, y, z, "tagify() shares nothing with the original")
    disjoint(S, x, y, "tagify() shares nothing with the original")


def run(S, sh):
    ht = S.ht
    k = sh["kind"]
    if k == "gen":
        g = C.Gen(S, KINDS, sh["n"], sh["pre"], texts=1)
        kids = g.forest(stop=False)

        def make():
            objs = [C.build(S, q) for q in kids]
            if len(kids) == 1 and kids[0].kind == "el":
                return objs[0]
            return ht.TagList(*objs)
        x = make()
        before = snap(S, x)
        fixpoint(S, x, values="M" not in kinds(kids))
        r = x.render()
        for nm, s in (("str", str(x)), ("repr", repr(x)), ("_repr_html_", x._repr_html_())):
            S.check_eq(s, r["html"], nm + " is render()['html']")
        S.check_eq(x.get_html_string(), r["html"], "get_html_string() is render()['html']")
        for o in ("deps", "alldeps", "copy", "doc"):
            op(S, o, x)
        same(S, before, snap(S, x), "read-only operations leave the tree unchanged")
        y = make()
        if not (set("RM") & set(kinds(kids))):
            S.check(x == y and y == x, "structurally identical trees are equal")
        S.observe(r["html"])
    elif k == "ops":
        x = fixed(S, sh["f"])
        before = snap(S, x)
        seq = [S.pick("op%d" % i, OPS) for i in range(sh["n"])]
        first = []
        for o in seq:
            first.append(op(S, o, x))
            same(S, before, snap(S, x), o + " leaves the tree unchanged")
        for o, r in zip(seq, first):
            same(S, r, op(S, o, x), o + " repeated gives the same result")
            same(S, before, snap(S, x), o + " leaves the tree unchanged")
        y = fixed(S, sh["f"])
        same(S, first[-1], op(S, seq[-1], y), seq[-1] + " does not depend on what ran before")
        S.observe(str(x))
    elif k == "mut":
        independent(S, lambda: fixed(S, sh["f"]), S.flag("which"))
    elif k == "same":
        x = fixed(S, sh["f"])
        fixpoint(S, x, sh["f"] != "exp", sh["f"] != "deps")
        h = x.render()["html"]
        S.check_eq(str(x), h, "str is render()['html']")
        S.check_eq(repr(x), h, "repr is render()['html']")
        S.check_eq(x._repr_html_(), h, "_repr_html_ is render()['html']")
        S.check_eq("%s" % str(x.tagify()), h, "str of tagify()")
        y = fixed(S, sh["f"])
        if sh["f"] not in ("exp", "list", "deps"):
            S.check(x == y and y == x and not (x != y), "structurally identical trees are equal")
    elif k == "docops":
        x = fixed(S, sh["f"])
        d = ht.HTMLDocument(x, lang="en") if S.flag("attrs") else ht.HTMLDocument(x)
        bx = snap(S, x)
        bd = snap(S, d)
        a = d.render()
        lp, iv = S.pick("lp", ["lib", None, "a/b"]), S.flag("iv")
        d.render(lib_prefix=lp, include_version=iv)
        same(S, bx, snap(S, x), "HTMLDocument.render() leaves the content unchanged")
        same(S, bd, snap(S, d), "HTMLDocument.render() leaves the document unchanged")
        e = copy.copy(d)
        e.append("more")
        S.check_eq(e.render()["html"] if sh["f"] == "" else d.render()["html"], a["html"],
                   "HTMLDocument.render() repeated gives the same result")
        b = d.render()
        S.check_eq(b["html"], a["html"], "HTMLDocument.render() repeated gives the same result")
        same(S, [snap(S, q) for q in a["dependencies"]], [snap(S, q) for q in b["dependencies"]],
             "HTMLDocument.render() repeated gives the same dependencies")
        disjoint(S, ht.TagList(*a["dependencies"]), x, "returned dependencies are independent")
        c = ht.HTMLDocument(x)
        c.render()
        same(S, bx, snap(S, x), "HTMLDocument.render() leaves the content unchanged")
        S.check_eq(d.render()["html"], a["html"], "documents of one tree do not influence each other")
        # what is returned belongs to the caller
        for q in b["dependencies"]:
            q.name = "changed"
            q.script.clear()
        S.check_eq(d.render()["html"], a["html"], "render() results are independent of the document")
    elif k == "depops":
        s = S.str("s", 1, 1, cs=C.X.cs_of("ab %&\"/\u00e9"))
        src = sh["src"]
        args = dict(source={"sub": {"subdir": "sub"}, "href": {"href": "//x/"}, "none": None}[src],
                    script=[{"src": s}, {"src": "b.js", "defer": s}], stylesheet={"href": s + ".css"},
                    meta={"name": "m", "content": s},
                    head=S.pick("h", [None, "<b>", ht.Tag("title", s), ht.TagList("x", ht.Tag("b"))]))
        d = ht.HTMLDependency("n", "1.2", **args)
        before = snap(S, d)
        seq = [S.pick("op%d" % i, DEPOPS) for i in range(2)]
        first = []
        for o in seq:
            first.append(depop(S, o, d))
            same(S, before, snap(S, d), o + " leaves the dependency unchanged")
        for o, r in zip(seq, first):
            same(S, r, depop(S, o, d), o + " repeated gives the same result")
        c = copy.copy(d)
        S.check(c == d and d == c, "a copied dependency is equal")
        t = d.as_html_tags()
        t.append("z")
        for q in t:
            if isinstance(q, ht.Tag):
                q.attrs["zz"] = "y"
        e = d.as_dict()
        e["script"].clear()
        e["stylesheet"][0]["href"] = "zz"
        same(S, before[:6], snap(S, d)[:6], "results of the dependency methods are independent")
    elif k == "docargs":
        # the attribute arguments and the arguments of the constructors
        s = S.str("s", 1, 1)
        kids = ["a", ht.Tag("p", s), dep(S)]
        attrs = {"class": s}
        bk, ba = snap(S, kids), snap(S, attrs)
        w = S.pick("w", ["frag", "body", "html"])
        t = {"frag": lambda: ht.Tag("div", attrs, *kids), "body": lambda: ht.Tag("body", attrs, *kids),
             "html": lambda: ht.Tag("html", attrs, ht.Tag("body", *kids))}[w]()
        d = ht.HTMLDocument(t, class_="k", id=s)
        for _ in range(2):
            a = d.render()["html"]
            S.check_eq(d.render()["html"], a, "HTMLDocument.render() repeated gives the same result")
            S.check_eq(ht.HTMLDocument(t, class_="k", id=s).render()["html"], a,
                       "a second document of the same tree renders the same")
        same(S, bk, snap(S, kids), "children given to the constructor are unchanged")
        same(S, ba, snap(S, attrs), "attributes given to the constructor are unchanged")
        S.check(t.attrs == {"class": s}, "attributes of the content are unchanged")
    elif k == "save":
        x = fixed(S, S.pick("f", ["deps", "html", "body", "list"]))
        before = snap(S, x)
        d = ht.HTMLDocument(x, lang="q")
        bd = snap(S, d)
        a = d.render(lib_prefix="l")["html"]
        op(S, "save", x)
        op(S, "save", d)
        same(S, before, snap(S, x), "save_html() leaves the tree unchanged")
        same(S, bd, snap(S, d), "save_html() leaves the document unchanged")
        S.check_eq(d.render(lib_prefix="l")["html"], a, "save_html() does not influence render()")
    elif k == "large":
        # many children, levels or attributes; one of them arbitrary, and a change at one
        n = {"wide": 120, "deep": 50, "attrs": 100}[sh["w"]]
        s, u = S.str("s", 1, 1), S.str("u", 1, 1)
        at = S.pick("at", [0, n // 2, n - 1])

        def make(v, at=at):
            if sh["w"] == "attrs":
                return ht.TagList("k", ht.Tag("p", {"a%d" % i: v if i == at else "q" for i in range(n)}))
            if sh["w"] == "wide":
                return ht.Tag("ul", *[ht.Tag("p", v) if i == at else
                                      [lambda: "k%d" % i, lambda: ht.Tag("li", "z", id="l"),
                                       lambda: dep(S, i % 5), lambda: ht.HTML("<i>")][i % 4]()
                                      for i in range(n)])
            x = ht.Tag("b", "z")
            for i in range(n):
                x = ht.Tag("div", v if i == at else "t", x, id="d%d" % i)
            return x
        x, y, z = make(s), make(u), make(s)
        law(S, x, y, bool(s == u), "equal iff same structure")
        law(S, x, z, True, "structurally identical trees are equal")
        if sh["w"] != "attrs" and bool(s != "t"):
            law(S, x, make(s, (at + 2) % n), False, "equal iff same structure")
        before = snap(S, x)
        fixpoint(S, x)
        r = x.render()
        S.check_eq(str(x), r["html"], "str is render()['html']")
        S.check_eq(x.get_html_string(), r["html"], "get_html_string() is render()['html']")
        for o in ("deps", "alldeps", "copy", "doc", "repr"):
            a = op(S, o, x)
            same(S, before, snap(S, x), o + " leaves the tree unchanged")
            same(S, a, op(S, o, x), o + " repeated gives the same result")
        t = x.tagify()
        h = x.render()["html"]
        q = t
        while sh["w"] != "wide" and isinstance(q, (ht.Tag, ht.TagList)):
            kids = q.children if isinstance(q, ht.Tag) else q
            if not kids or not isinstance(kids[-1], ht.Tag):
                break
            q = kids[-1]
        if sh["w"] == "wide":
            q = t.children[at]
            q = t if not isinstance(q, ht.Tag) else q
        q.append("new")
        q.attrs["zz"] = "new"
        same(S, before, snap(S, x), "mutating one tree leaves the other alone")
        S.check_eq(x.render()["html"], h, "mutating one tree leaves the other's markup alone")
    elif k == "chain":
        # operations on copies of copies
        x = fixed(S, S.pick("f", ["deps", "list", "html"]))
        before = snap(S, x)
        y = x.tagify().tagify()
        c = copy.copy(y)
        mutate(S, c if S.flag("c") else y, 1)
        same(S, before, snap(S, x), "mutating one tree leaves the other alone")
    else:
        equality(S, sh["w"])


def kinds(kids):
    return "".join(q.kind.upper()[0] + (kinds(q.kids) if q.kind == "el" else "") for q in kids)


def law(S, x, y, expected, label):
    """== agrees with the structural comparison, both ways round, and != is its negation."""
    S.check((x == y) == expected, label)
    S.check((y == x) == expected, label + " (reversed)")
    S.check((x != y) == (not expected), label + " (!=)")
    S.covers("equal" if expected else "different")


def equality(S, w):
    ht = S.ht
    a, b = S.str("a", 2), S.str("b", 2)
    eq = bool(a == b)
    wrap = S.pick("wrap", ["no", "tag", "list", "deep"])

    def up(x):
        if wrap == "tag":
            return ht.Tag("div", "k", x)
        if wrap == "list":
            return ht.TagList("k", x)
        if wrap == "deep":
            return ht.Tag("div", ht.Tag("p", ht.TagList(x, "z")), id="q")
        return x
    if w == "name":
        law(S, up(ht.Tag(a)), up(ht.Tag(b)), eq, "equal iff same tag name")
    elif w == "ws":
        p, q = S.flag("p"), S.flag("q")
        law(S, up(ht.Tag("a", _add_ws=p)), up(ht.Tag("a", _add_ws=q)), p == q,
            "equal iff same whitespace flag")
    elif w == "attr":
        law(S, up(ht.Tag("a", {"id": a})), up(ht.Tag("a", {"id": b})), eq, "equal iff same values")
        n = S.str("n", 1, 1, cs=C.X.cs_of("abc"))
        m = S.str("m", 1, 1, cs=C.X.cs_of("abc"))
        law(S, up(ht.Tag("a", {n: "v"})), up(ht.Tag("a", {m: "v"})), bool(n == m),
            "equal iff same attribute names")
    elif w == "attrs":
        law(S, up(ht.Tag("a", {"id": a})), up(ht.Tag("a", {"id": a, "x": ""})), False,
            "equal iff same attributes")
        law(S, up(ht.Tag("a")), up(ht.Tag("a", {"id": ""})), False, "equal iff same attributes")
        law(S, up(ht.Tag("a", {"id": a, "x": "y"})), up(ht.Tag("a", {"id": b, "x": "y"})), eq,
            "equal iff same attributes")
    elif w == "text":
        law(S, up(ht.Tag("p", a)), up(ht.Tag("p", b)), eq, "equal iff same text")
        law(S, up(ht.Tag("p", "x", a)), up(ht.Tag("p", "x", b)), eq, "equal iff same text")
        law(S, up(ht.Tag("p", ht.HTML(a))), up(ht.Tag("p", ht.HTML(b))), eq, "equal iff same text")
    elif w == "kids":
        law(S, up(ht.Tag("p", a, "x")), up(ht.Tag("p", a)), False, "equal iff same children")
        law(S, up(ht.Tag("p", a, "x")), up(ht.Tag("p", b, "x")), eq, "equal iff same children")
        law(S, up(ht.Tag("p", "x", a)), up(ht.Tag("p", a, "x")), bool(a == "x"),
            "equal iff same order of children")
        law(S, up(ht.Tag("p", ht.Tag("i"), ht.Tag("b"))), up(ht.Tag("p", ht.Tag("b"), ht.Tag("i"))), False,
            "equal iff same order of children")
    elif w == "nest":
        law(S, up(ht.Tag("p", ht.Tag("i", a))), up(ht.Tag("p", ht.Tag("i"), a)), False,
            "equal iff same structure")
        law(S, up(ht.Tag("p", ht.Tag("i", a))), up(ht.Tag("p", ht.Tag("i", b))), eq,
            "equal iff same structure")
        law(S, up(ht.Tag("p", [a, [b]])), up(ht.Tag("p", a, b)), True, "nested lists are flattened")
    elif w == "kind":
        UserList = ht.TagList.__mro__[1]
        ks = [ht.Tag("p"), ht.TagList(), dep(S), ht.Tag("p", ht.TagList()).children[:], "p", None, 3,
              ht.TagList(ht.Tag("p")), ht.MetadataNode(), ht.HTML("p"), {},
              object(), UserList(), UserList([ht.Tag("p")]), [], [ht.Tag("p")], 1.5, int]
        i, j = S.choice("i", 3), S.choice("j", len(ks))
        if i != j and not (i == 1 and j == 3):
            law(S, ks[i], ks[j], False, "objects of different kinds differ")
        S.check(not (ht.Tag("div", ks[i]) == ht.Tag("div")) or i == 1, "different children differ")
    elif w == "dep":
        f = S.pick("f", ["name", "script", "stylesheet", "meta", "source", "head", "all"])

        def mk(v, flag=False):
            return ht.HTMLDependency(
                v if f == "name" else "n", "1.0",
                script={"src": v if f == "script" else "s"},
                stylesheet={"href": v if f == "stylesheet" else "s"},
                meta={"name": "n", "content": v if f == "meta" else "s"},
                source={"subdir": v if f == "source" else "s"},
                head=ht.Tag("b", v if f == "head" else "s"), all_files=flag)
        if f == "all":
            p, q = S.flag("p"), S.flag("q")
            law(S, up(mk("x", p)), up(mk("x", q)), p == q, "dependencies are compared by value")
        else:
            law(S, up(mk(a)), up(mk(b)), eq, "dependencies are compared by value")
    elif w == "depver":
        i, j = S.pick("i", ["1.0", "1.9", "1.10"]), S.pick("j", ["1.0", "1.9", "1.10"])
        law(S, up(ht.HTMLDependency("n", i)), up(ht.HTMLDependency("n", j)), i == j,
            "dependencies are compared by value")
        law(S, up(ht.HTMLDependency("n", i, script={"src": "a"})),
            up(ht.HTMLDependency("n", i, script=[{"src": "a"}, {"src": "b"}])), False,
            "dependencies are compared by value")
    elif w == "list":
        law(S, ht.TagList(a), ht.TagList(b), eq, "lists are equal iff their items are")
        law(S, ht.TagList(a, ht.Tag("i", b)), ht.TagList(b, ht.Tag("i", a)), eq,
            "lists are equal iff their items are")
        law(S, ht.TagList(a), ht.TagList(a, ""), False, "lists are equal iff their items are")
        law(S, ht.TagList(), ht.TagList(), True, "empty lists are equal")
    elif w == "used":
        # the same structure, built in different ways
        import sys
        t = ht.Tag("p", id="i")
        saved = sys.displayhook
        sys.displayhook = lambda v: None
        try:
            with t:
                sys.displayhook(a)
        finally:
            sys.displayhook = saved
        law(S, up(t), up(ht.Tag("p", a, id="i")), True, "structurally identical tags are equal")
        u = ht.Tag("p")
        u.append(a)
        u.attrs["id"] = "i"
        law(S, up(u), up(t), True, "structurally identical tags are equal")
        v = ht.Tag("q", a, id="i", class_="c").remove_class("c")
        v.name = "p"
        str(v), v.render(), v.tagify(), v.get_dependencies()
        law(S, up(v), up(u), True, "structurally identical tags are equal")
    else:
        x = ht.Tag("p", {"id": a}, b, ht.Tag("i", a), dep(S))
        law(S, up(x), up(copy.copy(x)), True, "a copy is equal")
        law(S, up(x), up(copy.deepcopy(x)) if not S.concrete or True else None, True,
            "a deep copy is equal")
        law(S, up(x), up(x.tagify()), True, "a tagified copy is equal")
        y = x.tagify()
        y.children[1].append(b)
        law(S, up(x), up(y), False, "a changed copy is different")
