"""C10  Dependency collection and resolution: document order, first name, highest version."""
from props import common as C
from symx import expr as X

ENCODED = ["_resolve_dependencies", "TagList.get_dependencies", "Tag.get_dependencies",
           "TagList.tagify", "Tag.tagify", "TagList.render", "Tag.render", "HTMLDocument.render",
           "HTMLDocument._hoist_head_content", "HTMLDependency.__init__",
           "HTMLDependency._validate_dicts", "HTMLDependency._validate_dict",
           "HTMLDependency.__eq__"]
BOUNDS = {
    "quick": "flat lists of up to 4 dependencies with arbitrary one-character names and versions "
             "1.x (x any int in 0..1000, symbolic), 3 with two symbolic components, 3 over 20 version "
             "spellings; every forest of up to 4 nodes over {block, inline, list, text, dependency, the "
             "first dependency again, tagifiable} with symbolic names and versions, under 8 kinds "
             "of root; constructor items with any key of up to 8 characters, every non-dict kind "
             "of item and source, at any position of a list of up to 3"
             "; 30 to 130 dependencies in lists and trees; dependencies in the head markup of "
             "dependencies",
    "thorough": "flat lists of up to 5 dependencies, forests of up to 5 nodes",
}
COVER = ["resolved", "tie", "replaced", "kept", "shared", "expanded", "rejected", "accepted"]
ASSUMPTIONS = ["version components are compared by packaging.version.Version, executed natively on "
               "symbolic integers; version strings are parsed natively (concrete)",
               "a dependency in another dependency's head markup comes right after the one that "
               "carries it"]
POOL = ("1.9", "1.10", "1.10.0", "1.9.1", "2", "1.9rc1", "1.10.post1", "10.0", "01.9", "1!0.1",
        "1.9.dev3", "1.09", "1.0a1", "1.0b1", "1.0rc1", "1", "1.0.0.0", "1.9+local", "0.10", "9")


def shapes(tier):
    n = 4 if tier == "quick" else 5
    out = [dict(kind="flat", n=i) for i in range(1, n + 1)]
    out += [dict(kind="multi", n=3)]
    out += [dict(kind="pool", a=a) for a in range(len(POOL))]
    for p in C.prefixes("BILTDSX", 2 if n == 4 else 3, True):
        out.append(dict(kind="tree", pre=p, n=n))
    out += [dict(kind="root", root=r) for r in ROOTS]
    out += [dict(kind="one", field=f) for f in FIELDS]
    out += [dict(kind="key", field=f) for f in FIELDS + ("source",)]
    out += [dict(kind="bad", field=f) for f in FIELDS + ("source",)]
    out += [dict(kind="deep"), dict(kind="name")]
    out += [dict(kind="head", w=w, at=a) for w in range(4) for a in range(4)]
    out += [dict(kind="large", n=m, w=w) for m, w in ((30, 0), (30, 1), (40, 2), (30, 3), (130, 0))]
    if n > 4:
        out += [dict(kind="large", n=130, w=w) for w in range(1, 4)]
    return out


FIELDS = ("script", "stylesheet", "meta")
REQ = {"script": ("src",), "stylesheet": ("href",), "meta": ("name", "content")}


# -- reference resolution ------------------------------------------------------------------
class Spec:
    """A dependency's name, version (tuple of ints or a Version) and serial number."""

    def __init__(self, i, name, ver, obj):
        self.i, self.name, self.ver, self.obj = i, name, ver, obj


def higher(a, b):
    """Version-number ordering of release tuples (missing components are 0)."""
    if not isinstance(a, tuple):
        return bool(a > b)
    n = max(len(a), len(b))
    for x, y in zip(a + (0,) * (n - len(a)), b + (0,) * (n - len(b))):
        if bool(x > y):
            return True
        if bool(x < y):
            return False
    return False


def resolve(S, specs):
    out = []
    for d in specs:
        for k, e in enumerate(out):
            if bool(e.name == d.name):
                if higher(d.ver, e.ver):
                    out[k] = d
                    S.covers("replaced")
                else:
                    S.covers("tie" if not higher(e.ver, d.ver) else "kept")
                break
        else:
            out.append(d)
    S.covers("resolved")
    return out


def version(S, rel):
    """A Version whose release components may be symbolic."""
    V = S.ht._core.Version
    if S.concrete:
        return V(".".join(str(x) for x in rel))
    v = V("1." * (len(rel) - 1) + "0")
    if hasattr(v, "_release"):
        v._release = tuple(rel)
    else:
        v._version = v._version._replace(release=tuple(rel))
    return v


def mkdep(S, i, name, ver):
    return S.ht.HTMLDependency(name, ver, script={"src": "f%d.js" % i},
                               head="<h%d>" % i, all_files=i % 2 == 1)


def spec(S, i, names=None, rel=None):
    name = S.str("n%d" % i, 1, 1) if names is None else names
    rel = (1, S.int("v%d" % i, 0, 1000)) if rel is None else rel
    return Spec(i, name, rel, mkdep(S, i, name, version(S, rel)))


def marks(S, deps):
    out = []
    for d in deps:
        S.check(isinstance(d, S.ht.HTMLDependency), "a list of HTMLDependency objects")
        out.append(d.script[0]["src"])
    return out


def agrees(S, deps, specs, label, objs=False):
    got = marks(S, deps)
    S.check(got == ["f%d.js" % s.i for s in specs], label)
    if got == ["f%d.js" % s.i for s in specs]:
        for d, s in zip(deps, specs):
            S.check_eq(d.name, s.name, label + " (name)")
            S.check(d == s.obj and d.version == s.obj.version, label + " (content)")
            if objs:
                S.check(d is s.obj, label + " (object)")


# -- generated placements ----------------------------------------------------------------
class Gen(C.Gen):
    """Trees over B, I (tags), L (list), T (text), D (dependency), S (the first dependency
    object again), X (tagifiable)."""

    def __init__(self, S, n, pre):
        C.Gen.__init__(self, S, "BILTDSX", n, pre)
        self.specs = []
        self.depth = 0

    def dep(self):
        # a fourth name would add no new relation: it repeats the first
        i = len(self.specs)
        self.specs.append(spec(self.S, i, self.specs[0].name if i == 3 else None))
        return self.specs[-1]

    def node(self, k, depth):
        S, ht = self.S, self.S.ht
        if k in "BIL":
            sub = self.forest(depth + 1)
            objs = [o for o, _ in sub]
            order = [s for _, ss in sub for s in ss]
            if k == "L":
                return (objs, order)
            return (ht.Tag("div" if k == "B" else "script", *objs, _add_ws=k == "B"), order)
        if k == "T":
            return ("t&", [])
        if k == "S":
            if not self.specs:
                return (None, [])
            S.covers("shared")
            s = self.specs[0]
            return (s.obj, [s])
        s = self.dep()
        if k == "X":
            S.covers("expanded")
            if len(self.specs) % 2:
                return (C.Expander(lambda: ht.TagList("x", s.obj, ht.Tag("b", s.obj))), [s, s])
            return (C.Expander(lambda: ht.Tag("b", "x", s.obj)), [s])
        return (s.obj, [s])


def has_x(o, ht):
    if isinstance(o, C.Expander):
        return True
    if isinstance(o, ht.Tag):
        return any(has_x(c, ht) for c in o.children)
    return isinstance(o, (list, ht.TagList)) and any(has_x(c, ht) for c in o)


def collects(S, x, order, tagified=True, uniq=True):
    """The assertions of the property about a tree x whose dependencies in document order
    are `order`."""
    if not tagified:
        x = x.tagify()
    res = resolve(S, order)
    agrees(S, x.get_dependencies(dedup=False), order, "every dependency in document order")
    r = x.get_dependencies()
    agrees(S, r, res, "one per name, highest version, first occurrence order")
    agrees(S, x.get_dependencies(dedup=True), res, "dedup=True is the default")
    agrees(S, x.render()["dependencies"], res, "render() reports the resolved dependencies")
    again = S.ht.TagList(*r).get_dependencies()
    agrees(S, again, res, "resolution is idempotent")
    return res


ROOTS = ("list", "tag", "inline", "doc", "body", "html", "docappend", "deep")


def run(S, sh):
    ht = S.ht
    k = sh["kind"]
    if k == "flat":
        specs = [spec(S, i) for i in range(sh["n"])]
        x = ht.TagList(*[s.obj for s in specs])
        collects(S, x, specs)
        res = resolve(S, specs)
        agrees(S, x.get_dependencies(), res, "the represented object is one of the tree's", objs=True)
        # the order of the resolved names and the chosen objects do not depend on placement
        objs = [s.obj for s in specs]
        m = len(objs) // 2
        for y in (ht.Tag("div", *objs), ht.Tag("p", ht.Tag("b", *objs[:m]), *objs[m:]),
                  ht.TagList(*objs[:m], ht.Tag("p", ht.TagList(*objs[m:]))),
                  ht.TagList([objs[:m], [objs[m:]]])):
            agrees(S, y.get_dependencies(), res, "resolution is independent of placement")
    elif k == "multi":
        specs = []
        for i in range(sh["n"]):
            rel = (S.int("v%d" % i, 0, 30), S.int("w%d" % i, 0, 30))
            if S.flag("short%d" % i):
                rel = rel[:1]
            specs.append(spec(S, i, "n", rel))
        agrees(S, ht.TagList(*[s.obj for s in specs]).get_dependencies(), resolve(S, specs),
               "highest version by version-number ordering")
    elif k == "pool":
        V = S.ht._core.Version
        specs = []
        for i in range(3):
            v = POOL[sh["a"]] if i == 1 else S.pick("p%d" % i, POOL)
            name = "n" if i != 1 or S.flag("same") else "m"
            specs.append(Spec(i, name, V(v), mkdep(S, i, name, V(v) if i == 2 else v)))
            S.check(specs[-1].obj.version == V(v), "the version given is the version kept")
        collects(S, ht.TagList(*[s.obj for s in specs]), specs)
    elif k == "tree":
        g = Gen(S, sh["n"], sh["pre"])
        forest = g.forest(stop=False)
        objs = [o for o, _ in forest]
        order = [s for _, ss in forest for s in ss]
        tagified = not has_x(objs, ht)
        root = S.pick("root", ("list", "tag"))
        x = ht.TagList(*objs) if root == "list" else ht.Tag("p", *objs)
        collects(S, x, order, tagified)
    elif k == "head":
        # dependencies carried by another one's head markup, repeats included
        s = [spec(S, i) for i in range(4)]
        d = [q.obj for q in s]
        w = sh["w"]
        head = [lambda: [d[1], ht.Tag("link", d[2])], lambda: ht.Tag("title", d[1], d[2], d[1]),
                lambda: [C.Expander(lambda: ht.TagList(d[1], d[2])), "<"], lambda: [d[1]]][w]()
        order = [[1, 2], [1, 2, 1], [1, 2], [1]][w]
        if w == 3:
            # two levels
            d[1].head = ht.TagList("h", ht.Tag("b", d[2]))
            order = [1, 2]
        s[0].obj = d[0] = ht.HTMLDependency(d[0].name, d[0].version, script={"src": "f0.js"},
                                            head=ht.TagList("x", head))
        order = [s[i] for i in [0] + order]
        at = sh["at"]
        x = [ht.TagList(d[0], d[3]), ht.Tag("p", "t", ht.Tag("b", d[0]), d[3]),
             ht.TagList(d[3], d[0]), ht.TagList(d[0], ht.Tag("i", d[0]))][at]
        order = [order + [s[3]], order + [s[3]], [s[3]] + order, order + order][at]
        y = x.tagify()
        res = resolve(S, order)
        for o, dd in ((order, False), (res, True)):
            S.check(marks(S, y.get_dependencies(dedup=dd)) == ["f%d.js" % q.i for q in o],
                    "dependencies of a dependency's head, " +
                    ("one per name" if dd else "all in document order"))
        S.check(marks(S, x.render()["dependencies"]) == ["f%d.js" % q.i for q in res],
                "render() reports the resolved dependencies")
        S.check(marks(S, ht.HTMLDocument(x).render()["dependencies"]) ==
                ["f%d.js" % q.i for q in res], "the document reports the resolved dependencies")
    elif k == "root":
        s = [spec(S, i) for i in range(3)]
        d = [q.obj for q in s]
        res = resolve(S, s)
        r = sh["root"]
        x = C.Expander(lambda: ht.TagList(ht.Tag("p", d[1])))
        inner = [d[0], ht.Tag("p", x) if S.flag("x") else ht.Tag("p", d[1]), "t", d[2]]
        if r in ("list", "tag", "inline", "deep"):
            y = {"list": lambda: ht.TagList(*inner), "tag": lambda: ht.Tag("div", *inner),
                 "inline": lambda: ht.Tag("span", *inner, _add_ws=False),
                 "deep": lambda: ht.Tag("a", ht.Tag("b", ht.Tag("c", ht.Tag("d", *inner))))}[r]()
            agrees(S, y.render()["dependencies"], res, "render() reports the resolved dependencies")
            agrees(S, ht.HTMLDocument(y).render()["dependencies"], res,
                   "a document reports the resolved dependencies")
            return
        if r == "doc":
            doc = ht.HTMLDocument(*inner)
        elif r == "docappend":
            doc = ht.HTMLDocument(inner[0])
            doc.append(*inner[1:])
        elif r == "body":
            doc = ht.HTMLDocument(ht.Tag("body", *inner))
        else:
            doc = ht.HTMLDocument(ht.Tag("html", inner[0], ht.Tag("head", inner[1]),
                                         ht.Tag("body", *inner[2:])))
        agrees(S, doc.render()["dependencies"], res, "a document reports the resolved dependencies")
        agrees(S, doc.render(lib_prefix=None, include_version=False)["dependencies"], res,
               "a document reports the resolved dependencies")
    elif k == "deep":
        # one dependency per nesting level, all names distinct
        s = [spec(S, i, "n%d" % i) for i in range(6)]
        x = s[5].obj
        for q in reversed(s[:5]):
            x = ht.Tag("div", q.obj, x, "t")
        collects(S, x, s)
    elif k == "large":
        # many dependencies, many of them of the same name; two versions arbitrary
        n, w = sh["n"], sh["w"]
        a, b = [(0, n - 1), (n // 2 - 4, n // 2 + 3), (9, 33)][S.choice("at", 3 if n > 33 else 2)]
        many = 7 if S.flag("few") else n - 5
        s = [spec(S, i, "n%d" % (i * 3 % many), None if i in (a, b) else (1, i * 7 % 90))
             for i in range(n)]
        objs = [q.obj for q in s]
        if w == 0:
            x = ht.TagList(*objs)
        elif w == 1:
            x = ht.Tag("div", *[ht.Tag("p", o) if i % 3 else ["t", o] for i, o in enumerate(objs)])
        elif w == 2:
            x = ht.Tag("i")
            for o in reversed(objs):
                x = ht.Tag("div", o, x)
        else:
            x = ht.Tag("ul", *[ht.Tag("li", *objs[i:i + 10]) for i in range(0, n, 10)])
        if w == 2 and n > 100:
            res = resolve(S, s)
            agrees(S, x.get_dependencies(dedup=False), s, "every dependency in document order")
            agrees(S, x.get_dependencies(), res, "one per name, highest version")
        else:
            collects(S, x, s)
    elif k == "name":
        # names that only look alike
        a, b = S.str("a", 3), S.str("b", 3)
        s = [Spec(0, a, (1, 9), mkdep(S, 0, a, "1.9")), Spec(1, b, (1, 10), mkdep(S, 1, b, "1.10"))]
        collects(S, ht.Tag("p", s[0].obj, ht.Tag("i", s[1].obj)), s)
    elif k == "one":
        single(S, sh["field"])
    elif k == "key":
        keys(S, sh["field"])
    else:
        bad(S, sh["field"])


# -- construction ----------------------------------------------------------------------------
def item(S, f, i=0):
    v = S.str("x%d" % i, 1, 1, cs=X.cs_of("a/ %<&\u00e9"))
    it = {"script": {"src": v, "type": "module"}, "stylesheet": {"href": v, "media": "all"},
          "meta": {"name": "m", "content": v}}[f]
    if f == "stylesheet" and S.flag("rel"):
        it["rel"] = "preload"
    return it


def single(S, f):
    ht = S.ht
    src = S.pick("src", [None, {"subdir": "s"}, {"href": "//h"}])
    it = item(S, f)
    a, ea = S.attempt(ht.HTMLDependency, "n", "1.0", source=src, **{f: dict(it)})
    b, eb = S.attempt(ht.HTMLDependency, "n", "1.0", source=src, **{f: [dict(it)]})
    S.check(ea is None and eb is None, "a valid item is accepted")
    if ea or eb:
        return
    S.covers("accepted")
    S.check(a == b and b == a, "one item is the same as a list of that item")
    S.check(len(getattr(a, f)) == 1 and len(getattr(b, f)) == 1, "one item")
    for q in it:
        S.check_eq(getattr(a, f)[0][q], it[q], "the item is kept")
        S.check_eq(getattr(b, f)[0][q], it[q], "the item is kept")
    S.check_eq(a.as_html_tags().get_html_string(), b.as_html_tags().get_html_string(),
               "one item is the same as a list of that item (markup)")
    c = ht.HTMLDependency("n", "1.0", source=src, **{f: []})
    d = ht.HTMLDependency("n", "1.0", source=src, **{f: None})
    S.check(c == d and getattr(c, f) == [], "no items")
    two = ht.HTMLDependency("n", "1.0", source=src, **{f: [dict(it), item(S, f, 1)]})
    S.check(len(getattr(two, f)) == 2, "a list of items is kept")
    S.check_eq(getattr(two, f)[0][REQ[f][-1]], it[REQ[f][-1]], "a list of items is kept in order")


def keys(S, f):
    """An item is accepted exactly when it has its required keys."""
    ht = S.ht
    if f == "source":
        cs = X.cs_of("abcdefghijklmnopqrstuvwxyz_-HREF")
        k1, k2 = S.str("k1", 8, 1, cs=cs), S.str("k2", 8, 1, cs=cs)
        S.assume(k1 != k2)
        it = {k1: "v", k2: "w"}
        if S.flag("pkg"):
            S.assume(k1 != "package" and k2 != "package")
            it["package"] = "htmltools"
        ok = any(bool(q == w) for w in ("href", "subdir") for q in (k1, k2))
        r, exc = S.attempt(ht.HTMLDependency, "n", "1", source=it)
        S.check((exc is None) == ok, "a source needs href or subdir")
        S.covers("accepted" if ok else "rejected")
        return
    cs = X.cs_of("abcdefghijklmnopqrstuvwxyz_-NAE")
    k1, k2 = S.str("k1", 8, 1, cs=cs), S.str("k2", 8, 1, cs=cs)
    S.assume(k1 != k2)
    it = {k1: "v", k2: "w"}
    for q in ("type", "media", "crossorigin")[:S.choice("extra", 4)]:
        S.assume(k1 != q and k2 != q)
        it[q] = "e"
    ok = all(bool(k1 == w) or bool(k2 == w) for w in REQ[f])
    arg = S.pick("form", [0, 1, 2, 3, 4])
    good = {"src": "g", "href": "g", "name": "g", "content": "g"}
    arg = [it, [it], [good, it], [it, good], [good, it, dict(good), good]][arg]
    r, exc = S.attempt(ht.HTMLDependency, "n", "1", **{f: arg})
    S.check((exc is None) == ok, "an item is accepted iff it has its required keys")
    S.covers("accepted" if ok else "rejected")


def bad(S, f):
    """Items and sources that are not dicts, or empty dicts."""
    ht = S.ht
    s = S.str("s", 1, 1)
    junk = [s, "", 3, 0, 1.5, True, False, ("src", "href"), ["src", "href"], b"x", object(),
            {"x": s}, {}, None, [], (), ht.HTML(s), ht.HTML(""), ht.Tag("script"), frozenset(["src", "href"])]
    i = S.choice("i", len(junk))
    it = junk[i]
    if f == "source":
        S.assume(it is not None)
        r, exc = S.attempt(ht.HTMLDependency, "n", "1", source=it)
        S.check(exc is not None, "a source that is not a dict with href or subdir is rejected")
        S.covers("rejected")
        return
    good = {"src": "g", "href": "g", "name": "g", "content": "g"}
    form = S.pick("form", ["single", "list", "first", "last", "mid"])
    if form == "single":
        # None and empty sequences are "no items"
        S.assume(it is not None and it != [] and it != ())
    arg = {"single": it, "list": [it], "first": [it, good], "last": [good, it],
           "mid": [dict(good), it, dict(good)]}[form]
    r, exc = S.attempt(ht.HTMLDependency, "n", "1", **{f: arg})
    S.check(exc is not None, "an item that is not a dict with its required keys is rejected")
    S.covers("rejected")
