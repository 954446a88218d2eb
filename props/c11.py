"""C11  HTMLDocument builds one head and body and hoists every dependency into the head."""
from props import common as C
from props.common import D, El, H, R, T
from symx import expr as X
from symx import pat

ENCODED = ["HTMLDocument.__init__", "HTMLDocument.append", "HTMLDocument.render",
           "HTMLDocument._gen_html_tag_tree", "HTMLDocument._hoist_head_content",
           "HTMLDependency.as_html_tags", "HTMLDependency.as_dict",
           "HTMLDependency.source_path_map", "head_content", "_resolve_dependencies",
           "get_dependencies", "tagify", "get_html_string", "Tag.__copy__"]
BOUNDS = {
    "quick": "fragments and bodies: every forest of up to 4 nodes over {block, inline, text, "
             "dependency, the first dependency again, tagifiable}; <html>: every sequence of up to "
             "4 children over {head, body, block, text, dependency, tagifiable} with up to 2 nodes in the "
             "head and the body; the first dependency of any of 9 profiles (meta, link, script, head "
             "markup, URL or no source, head_content(), nested dependency), symbolic names (one "
             "letter) and two versions; every split between constructor and append(); 6 html "
             "attribute sets; 4 lib prefixes; include_version on/off; text is one symbolic character; "
             "pre-, post-, development, local and epoch versions of two dependencies; 16 items at two places of the user's head; elements of any name of 3 to 4 letters, "
             "and html, head and body elements, around and inside the content"
             "; whitespace flags of html, head and body; 60 dependencies in a list and along "
             "60 levels; content that tagifiable objects expand to (7 ways); the same content twice",
    "thorough": "forests of up to 5 nodes, <html> with up to 5 children",
}
COVER = ["fragment", "body", "html", "nohead", "listing", "nodeps", "appended", "resolved"]
ASSUMPTIONS = ["the user's <html> has at most one <head> child",
               "the layout of the document is the documented layout of the hoisted tree (C05, C06)"]
PROFILES = ("full", "script", "url", "head", "bare", "hc", "nest", "nosrc", "multi")


def shapes(tier):
    q = tier == "quick"
    out = []
    for root in ("frag", "body"):
        for p in C.prefixes("BITDSX", 2, True):
            out.append(dict(kind=root, pre=p, n=4 if q else 5, prof="script"))
    for p in C.prefixes("hyBTDX", 2, True):
        if p.count("h") < 2:
            out.append(dict(kind="html", pre=p, n=4 if q else 5, prof="script"))
    for prof in PROFILES:
        for k in ("frag", "body", "html", "head"):
            out.append(dict(kind="prof", prof=prof, where=k))
    out += [dict(kind="attrs", where=k) for k in ("frag", "body", "html")]
    out += [dict(kind="ws", where=k) for k in ("body", "html", "frag", "inner")]
    out += [dict(kind="append", where=k) for k in ("frag", "body", "html", "head")]
    out += [dict(kind="versions", where=k) for k in ("frag", "html", "head")]
    out += [dict(kind="paths"), dict(kind="many"), dict(kind="lots", w=0), dict(kind="lots", w=1), dict(kind="same")]
    out += [dict(kind="root", where=w) for w in ("frag", "body", "html", "head")]
    out += [dict(kind="userhead", n=i) for i in range(3)] + [dict(kind="names", n=i) for i in range(5)]
    return out


# -- dependencies ----------------------------------------------------------------------
class Dep(C.Node):
    def __init__(self, S, prof, name, version, i):
        C.Node.__init__(self, "d", prof=prof, name=name, version=version, i=i, metas=[], links=[],
                        scripts=[], head=[], nested=[], base=None)
        f = "f%d.js" % i
        kw = {}
        self.local = prof in ("full", "script", "nest", "multi")
        if self.local:
            kw["source"] = {"subdir": "sub"}
        if prof == "url":
            kw["source"] = {"href": S.pick("slash", ["//h/x", "//h/x/"])}
            self.base = "//h/x/"
        if prof in ("full", "script", "url", "nosrc", "multi"):
            kw["script"] = {"src": f}
            self.scripts = [[("src", f)]]
        if prof in ("full", "multi"):
            kw["script"] = [{"src": f, "defer": ""}, {"type": "module", "src": "d/g.js"}]
            self.scripts = [[("src", f), ("defer", "")], [("type", "module"), ("src", "d/g.js")]]
        if prof in ("full", "url", "multi"):
            kw["stylesheet"] = {"href": "s.css", "media": "a&b"}
            self.links = [[("href", "s.css"), ("media", "a&b"), ("rel", "stylesheet")]]
        if prof == "multi":
            kw["stylesheet"] = [kw["stylesheet"], {"href": "t.css"}]
            self.links.append([("href", "t.css"), ("rel", "stylesheet")])
            kw["meta"] = [{"name": "m", "content": "c<"}, {"name": "n", "content": "d"}]
            self.metas = [[("name", "m"), ("content", "c<")], [("name", "n"), ("content", "d")]]
            kw["head"] = S.ht.TagList("x<", S.ht.Tag("base"), S.ht.HTML("<!-- -->"))
            self.head = [T("x<"), El("base"), H("<!-- -->")]
        if prof == "full":
            kw["meta"] = {"name": "m", "content": "c"}
            self.metas = [[("name", "m"), ("content", "c")]]
            kw["head"] = S.ht.Tag("title", "t&%d" % i)
            self.head = [El("title", T("t&%d" % i))]
        if prof == "head":
            kw["head"] = "<x-h%d>&" % i
            self.head = [H("<x-h%d>&" % i)]
        if prof == "hc":
            s = S.str("hc", 1, 1)
            self.obj = S.ht.head_content(S.ht.Tag("title", s), s)
            self.head = [El("title", T(s)), T(s)]
            self.name, self.version = self.obj.name, "0.0"
        elif prof == "nest":
            inner = Dep(S, "script", "inner", "3.0", i + 50)
            kw["head"] = S.ht.TagList(S.ht.Tag("base", inner.obj))
            self.head = [El("base")]
            self.nested = [inner]
        if prof != "hc":
            self.obj = S.ht.HTMLDependency(name, version, **kw)

    def url(self, f, lp, iv):
        """Expected URL of a (URL-safe) file."""
        if not self.local:
            return (self.base or "") + f
        u = self.name + ("-" + self.version if iv else "") + "/" + f
        return (lp.rstrip("/") + "/" if lp else "") + u

    def nodes(self, lp, iv):
        """The markup the dependency contributes: meta, link, script, head, in this order."""
        def fix(attrs, key):
            return [(a, self.url(v, lp, iv) if a == key else v) for a, v in attrs]
        out = [any_order(El("meta", attrs=m)) for m in self.metas]
        out += [any_order(El("link", attrs=fix(m, "href"))) for m in self.links]
        out += [any_order(El("script", attrs=fix(m, "src"), raw=True)) for m in self.scripts]
        return out + self.head


def any_order(n):
    n.anyorder = True
    return n


def head_items(S):
    """What users put into their own <head>."""
    s = S.str("hs", 1, 1)
    cs = S.str("cs", 3, 1, cs=X.cs_of("latin-8utf16"))
    return (
        El("meta", attrs=[("charset", cs)]), El("meta", attrs=[("charset", "latin1"), ("id", "m")]),
        El("meta", attrs=[("name", "viewport"), ("content", s)]),
        El("meta", attrs=[("http-equiv", "content-type"), ("content", "text/html;charset=utf-8")]),
        El("title", T(s)), El("base", attrs=[("href", s)]), T(s), H('<meta charset="utf-8"/>'),
        El("script", T(s), attrs=[("type", "application/html-dependencies")], raw=True),
        El("script", T("a<" + s), raw=True), El("style", T("b>" + s), T("c<"), raw=True),
        El("link", attrs=[("rel", "stylesheet"), ("href", "u.css")]), El("noscript", El("p", T(s))),
        El("template", El("head", El("meta", attrs=[("charset", "x")]))), R(s), C.M())


# -- content -----------------------------------------------------------------------------
class Gen(C.Gen):
    def __init__(self, S, kinds, n, pre, prof):
        C.Gen.__init__(self, S, kinds, n, pre, inline_only_in_inline=True)
        self.prof = prof
        self.deps = []
        self.had = False

    def dep(self):
        S, i = self.S, len(self.deps)
        # any equalities between the names; higher, equal and lower versions
        names = ["zyxwv"[j] for j in range(len({d.name for d in self.deps}) + 1)]
        d = Dep(S, self.prof if i == 0 else "script", S.pick("n%d.%d" % (i, len(names)), names),
                S.pick("v%d" % i, ("1.9", "1.10", "1.8")) if i == 1 else "1.9", i)
        self.deps.append(d)
        return d

    def node(self, k, depth):
        if k == "h":
            self.had = True
            self.kinds = self.kinds.replace("h", "")
            return El("head", *self.small(depth, "BTD"), attrs=[("id", "h")])
        if k == "y":
            return El("body", *self.small(depth, "BTD"), attrs=[("class", "y")])
        if k == "D":
            return self.dep()
        if k == "S":
            return self.deps[0] if self.deps else T("")
        if k == "X":
            kids = [T("e<"), self.dep(), El("u", ws=False)] if len(self.deps) % 2 == 0 else [self.dep()]
            return C.Node("x", kids=kids, make=lambda S: S.ht.TagList(*[build(S, q) for q in kids]))
        return C.Gen.node(self, k, depth)

    def small(self, depth, kinds):
        save, self.kinds = self.kinds, kinds
        out = []
        for _ in range(2):
            if self.left <= 0:
                break
            k = self.opt("." + kinds)
            if k == ".":
                break
            self.left -= 1
            out.append(C.Gen.node(self, "T", depth) if k == "T" else
                       El("p", T("p")) if k == "B" else self.dep())
        self.kinds = save
        return out


def build(S, n):
    if n.kind == "d":
        return n.obj
    if n.kind == "el":
        t = C.tag_class(S.ht, n)(n.name, {a[0]: a[1] for a in n.attrs}, *[build(S, c) for c in n.kids],
                                 _add_ws=n.ws)
        return t
    return C.build(S, n)


def expand(kids):
    out = []
    for k in kids:
        if k.kind == "x":
            out.extend(expand(k.kids))
        elif k.kind == "el":
            out.append(El(k.name, *expand(k.kids), ws=k.ws, attrs=k.attrs, raw=k.raw))
        else:
            out.append(k)
    return out


def collect(kids):
    out = []
    for k in kids:
        if k.kind == "d":
            out.append(k)
            out.extend(collect(k.nested))
        elif k.kind == "el":
            out.extend(collect(k.kids))
    return out


# unusual versions, each in its normal form
VERSIONS = ("1.0.dev2", "1.0rc1", "1.0", "1.0+l.1", "1.0.post3", "1!0.1")


def vkey(v):
    """(epoch, release, pre / final / post, local) of the versions used here."""
    e, _, v = v.rpartition("!")
    v, _, loc = v.partition("+")
    stage = 0
    for i, m in ((-2, ".dev"), (-1, "rc"), (1, ".post")):
        if m in v:
            v, stage = v.partition(m)[0], i
    v = [int(q) for q in v.split(".")]
    while v and not v[-1]:
        v.pop()
    return int(e or 0), v, stage, loc


def resolve(S, kids):
    out = []
    for d in collect(kids):
        v = vkey(d.version)
        for i, e in enumerate(out):
            if bool(e.name == d.name):
                S.covers("resolved")
                if v > vkey(e.version):
                    out[i] = d
                break
        else:
            out.append(d)
    return out


ATTRS = (({}, []), ({"lang": "en"}, [("lang", "en")]),
         ({"class_": "k&", "data_x": True, "hidden": False, "id": None}, [("class", "k&"), ("data-x", "")]),
         ({"lang": "a", "dir": "b", "style": "c"}, [("lang", "a"), ("dir", "b"), ("style", "c")]),
         ({"id": "K&", "lang": None}, [("id", "K&")]), ({"id": "Z"}, [("id", "Z")]), ({"id": None, "class_": False}, []))


def expected(S, kids, attrs, lp, iv):
    """The document tree: expanded content with everything hoisted."""
    kids = expand(kids)
    deps = resolve(S, kids)
    hoisted = []
    if deps:
        S.covers("listing")
        text = ""
        for d in deps:
            text = text + (";" if d is not deps[0] else "") + d.name + "[" + d.version + "]"
        hoisted.append(El("script", T(text), attrs=[("type", "application/html-dependencies")], raw=True))
        for d in deps:
            hoisted += d.nodes(lp, iv)
    else:
        S.covers("nodeps")
    meta = El("meta", attrs=[("charset", "utf-8")])
    lone = kids[0] if len(kids) == 1 and kids[0].kind == "el" else None
    if lone is not None and lone.name == "html":
        S.covers("html")
        sub = list(lone.kids)
        for i, c in enumerate(sub):
            if c.kind == "el" and c.name == "head":
                sub[i] = El("head", meta, *c.kids, *hoisted, ws=c.ws, attrs=c.attrs)
                break
        else:
            S.covers("nohead")
            sub.insert(0, El("head", meta, *hoisted))
        html = El("html", *sub, ws=lone.ws,
                  attrs=[a for a in lone.attrs if a[0] not in dict(attrs)] + attrs)
    else:
        if lone is not None and lone.name == "body":
            S.covers("body")
            body = lone
        else:
            S.covers("fragment")
            body = El("body", *kids)
        html = El("html", El("head", meta, *hoisted), body, attrs=attrs)
    return any_order(html), deps


def judge(S, doc, kids, attrs=(), lp="lib", iv=True, ordinary=False, **kw):
    html, deps = expected(S, kids, list(attrs), lp, iv)
    r = doc.render(**kw)
    if ordinary:
        # blocks in inline elements: whatever the ordinary rendering of that tree is
        S.check_eq(r["html"], "<!DOCTYPE html>\n" + build(S, html).get_html_string(),
                   "the document renders as the hoisted tree does")
    else:
        S.check_match(r["html"], pat.seq("<!DOCTYPE html>\n") + C.block(html, 0, "\n"),
                      "the document is the hoisted tree")
    got = r["dependencies"]
    S.check(len(got) == len(deps), "the returned dependencies are the resolved list")
    if len(got) == len(deps):
        for g, d in zip(got, deps):
            S.check_eq(g.name, d.name, "the returned dependencies are the resolved list")
            S.check(str(g.version) == d.version and g == d.obj,
                    "the returned dependencies are the resolved list")
    S.observe(r["html"])


def sample(S, where, d, more=()):
    """A content of the given kind around dependency d."""
    s = S.str("s", 1, 1)
    if where == "frag":
        return [T(s), El("p", d, T("x<"), El("i", *more, ws=False)), El("hr")]
    if where == "body":
        return [El("body", d, T(s), *more, attrs=[("id", "b")])]
    if where == "html":
        return [El("html", d, El("body", T(s), *more), attrs=[("id", "q")])]
    return [El("html", El("body", T(s)), El("head", El("title", T(s)), d, *more, attrs=[("id", "h")]),
               attrs=[("id", "q")])]


def run(S, sh):
    ht = S.ht
    k = sh["kind"]
    if k in ("frag", "body"):
        g = Gen(S, "BITDSX", sh["n"], sh["pre"], sh["prof"])
        kids = g.forest(stop=False)
        if k == "body":
            kids = [El("body", *kids, attrs=[("id", "b")])]
        judge(S, ht.HTMLDocument(*[build(S, q) for q in kids]), kids)
    elif k == "html":
        g = Gen(S, "hyBTDX", sh["n"], sh["pre"], sh["prof"])
        kids = [El("html", *g.forest(stop=False), attrs=[("class", "u")])]
        judge(S, ht.HTMLDocument(*[build(S, q) for q in kids], lang="en"), kids, [("lang", "en")])
    elif k == "prof":
        d = Dep(S, sh["prof"], S.str("n0", 1, 1, cs=X.cs_of("abcxyz")), S.pick("v0", ("1.9", "1.10")), 0)
        e = Dep(S, "full", d.name if sh["prof"] != "hc" and S.flag("same") else "Q", "1.9.0", 1)
        more = S.pick("more", ((), (e,), (d,), (e, d, e)))
        kids = sample(S, sh["where"], d, more)
        lp, iv = S.pick("lp", ("lib", None, "a/b", "q/")), S.flag("iv")
        judge(S, ht.HTMLDocument(*[build(S, q) for q in kids]), kids, (), lp, iv,
              lib_prefix=lp, include_version=iv)
    elif k == "root":
        # the content is what a tagifiable object expands to
        d = Dep(S, S.pick("prof", PROFILES), "a", "1.0", 0)
        xp = lambda *kids, one=False: C.Node("x", kids=list(kids), make=lambda S: build(
            S, kids[0]).tagify() if one else S.ht.TagList(*[build(S, q) for q in kids]).tagify())
        kids = sample(S, sh["where"], d, S.pick("more", ((), (d,), (xp(T("x")),))))
        w = S.pick("wrap", ("list", "twice", "empty", "each", "tag", "only", "empties"))
        if w == "list":
            top = [xp(*kids)]
        elif w == "twice":
            top = [xp(xp(), xp(*kids))]
        elif w == "empty":
            top = [xp(), *kids, xp()]
        elif w == "each":
            top = [xp(q) for q in kids]
        elif w == "tag":
            top = [xp(q, one=True) if q.kind == "el" else q for q in kids]
        elif w == "only":
            top = [xp(d), *kids] if sh["where"] != "frag" else [xp()]
        else:
            top = [xp(*kids), xp(d)]
        attrs = S.pick("attrs", ([], [("lang", "en"), ("id", "z")]))
        judge(S, ht.HTMLDocument(*[build(S, q) for q in top], **dict(attrs)), top, attrs)
    elif k == "attrs":
        d = Dep(S, "script", "a", "1.0", 0)
        kids = sample(S, sh["where"], d)
        kw, exp = S.pick("attrs", ATTRS)
        judge(S, ht.HTMLDocument(*[build(S, q) for q in kids], **kw), kids, exp)
    elif k == "ws":
        # html, head and body elements with and without whitespace
        s = S.str("s", 1, 1)
        d = Dep(S, "hc", "a", "1.0", 0)
        w = [S.flag("w%d" % i) for i in range(3)]
        many = [T(s), El("i", T("x"), ws=False), El("p", d)] if S.flag("many") else [T(s), d]
        body = El("body", *many, ws=w[0], attrs=[("id", "b")])
        if sh["where"] == "body":
            kids = [body]
        elif sh["where"] == "html":
            kids = [El("html", El("head", El("title", T(s)), ws=w[1]), body, ws=w[2])]
        elif sh["where"] == "frag":
            kids = [body, El("head", T("k"), ws=w[1])] if w[2] else [El("span", *many, ws=w[0])]
        else:
            kids = [El("div", El("html", body, ws=w[1]), ws=w[2])]
        judge(S, ht.HTMLDocument(*[build(S, q) for q in kids]), kids, ordinary=True)
    elif k == "append":
        d, e = Dep(S, "full", "a", "1.0", 0), Dep(S, "script", "b", "1.0", 1)
        kids = sample(S, sh["where"], d, (e,))
        if S.flag("extra"):
            # no longer the sole content
            kids = kids + [T("z")] if S.flag("after") else [El("p", e)] + kids
        i = S.choice("split%d" % len(kids), len(kids) + 1)
        objs = [build(S, q) for q in kids]
        doc = ht.HTMLDocument(*objs[:i], lang="en")
        S.covers("appended")
        form = S.choice("form", 3)
        if form == 0:
            for o in objs[i:]:
                doc.append(o)
        elif form == 1:
            doc.append(*objs[i:]) if objs[i:] else None
        else:
            doc.append(objs[i:], None)
        if S.flag("early"):
            doc.render()
        judge(S, doc, kids, [("lang", "en")])
    elif k == "userhead":
        items = head_items(S)
        d = Dep(S, ("script", "full", "hc")[sh["n"]], "a", "1.0", 0)
        i = S.choice("a", len(items))
        j = S.choice("b", len(items))
        kids = [items[i], items[j]] + ([d] if S.flag("dep") else [])
        head = El("head", *kids, attrs=[("id", "h")])
        body = El("body", T("t"), d)
        at = S.choice("at", 3)
        sub = [[head, body], [body, head], [T("x"), head, body]][at]
        kids = [El("html", *sub, attrs=[("id", "q")])]
        judge(S, ht.HTMLDocument(*[build(S, q) for q in kids]), kids)
    elif k == "versions":
        d = Dep(S, "full", "n", S.pick("v0", VERSIONS), 0)
        e = Dep(S, "script", S.str("n1", 1, 1, cs=X.cs_of("mno")), S.pick("v1", VERSIONS), 1)
        kids = sample(S, sh["where"], d, (e, d))
        judge(S, ht.HTMLDocument(*[build(S, q) for q in kids]), kids)
    elif k == "names":
        # elements of any name around the content; html, head and body at unusual places
        n = sh["n"]
        a = S.str("a", 4, 3, cs=X.cs_of("htmlbodyeadHTMLx-"), first=X.cs_of("hbxHB"))
        s = S.str("s", 1, 1)
        d = Dep(S, "script", "a", "1.0", 0)
        b = S.pick("b", ("html", "head", "body", "title", "div"))
        e = El(b, T(s), d)
        if n == 0:
            kids = [El(a, T(s), d)]
        elif n == 1:
            S.assume(a != "html")
            kids = [El(a, e, T(s))]
        elif n == 2:
            kids = [e, El(a, T(s))]
        elif n == 3:
            S.assume(a != "head")
            kids = [El("html", El(a, T(s)), e if b != "head" else T("k"), El("p", El("head", T(s))))]
        else:
            kids = [El("html", El("head", e), El("body", El(a, e)), El(a if a != "head" else "p"))]
        judge(S, ht.HTMLDocument(*[build(S, q) for q in kids]), kids)
    elif k == "paths":
        # defaults of render()
        d = Dep(S, "full", "a", "1.0", 0)
        kids = sample(S, "frag", d)
        objs = [build(S, q) for q in kids]
        judge(S, ht.HTMLDocument(*objs), kids, (), "lib", True)
        judge(S, ht.HTMLDocument(*objs), kids, (), "z", True, lib_prefix="z")
        judge(S, ht.HTMLDocument(*objs), kids, (), "lib", False, include_version=False)
        judge(S, ht.HTMLDocument(*objs), kids, (), "", False, include_version=False, lib_prefix="")
    elif k == "lots":
        # many dependencies and many levels
        n = 60
        ps = [p for p in PROFILES if p not in ("hc", "nest")]
        ds = [Dep(S, ps[i % len(ps)], "n%d" % (i * 7 % (n - 4)), "1.%d" % (i * 11 % n), i)
              for i in range(n)]
        s = S.str("s", 1, 1)
        if sh["w"] == 0:
            kids = [El("html", El("head", El("title", T(s)), *ds[:20]), El("body", *ds[20:], T(s)))]
            if S.flag("frag"):
                kids = [El("p", T(s)), *ds, El("div", T(s))]
        else:
            x = El("i", T(s), ds[0], ws=False)
            for i in range(1, n):
                x = El("div", *([ds[i]] if i % 2 else []), x, *([] if i % 2 else [ds[i], T("t")]))
            kids = [x]
        judge(S, ht.HTMLDocument(*[build(S, q) for q in kids]), kids)
    elif k == "many":
        # all profiles together, in one head or spread over the document
        ds = [Dep(S, p, "n%d" % i, "1.%d" % i, i) for i, p in enumerate(PROFILES)]
        r = S.choice("rot", len(ds))
        ds = ds[r:] + ds[:r]
        where = S.choice("where", 3)
        if where == 0:
            kids = [El("html", El("head", *ds), El("body", *ds[:3]))]
        elif where == 1:
            kids = [El("div", *ds[:4], El("p", El("b", *ds[4:7], ws=False))), T("t"), *ds[7:]]
        else:
            kids = [El("body", El("head", ds[0]), *ds[1:], El("body", ds[0]))]
        judge(S, ht.HTMLDocument(*[build(S, q) for q in kids]), kids)
    else:
        # two head_content() items: merged iff their rendered content is the same
        a, b = S.str("a", 2, 1), S.str("b", 2, 1)
        form = S.pick("form", ["text", "tag", "attr"])
        def mk(v):
            return {"text": lambda: ht.head_content(v), "tag": lambda: ht.head_content(ht.Tag("p", v)),
                    "attr": lambda: ht.head_content(ht.Tag("p", {"id": v}), "x")}[form]()
        def spec(v):
            d = C.Node("d", name="", version="0.0", nested=[], obj=mk(v))
            d.name = d.obj.name
            hd = {"text": [T(v)], "tag": [El("p", T(v))], "attr": [El("p", attrs=[("id", v)]), T("x")]}[form]
            d.nodes = lambda lp, iv: hd
            return d
        da, db = spec(a), spec(b)
        S.check(bool(da.name == db.name) == bool(a == b), "head_content() names agree with the content")
        kids = [El("div", da, T("k"), El("p", db)), da]
        judge(S, ht.HTMLDocument(*[build(S, q) for q in kids]), kids)
