"""C18  Output is deterministic across processes and independent of history."""
import hashlib
import itertools
import os

from props import common as C
from symx import expr as X
from symx import pat

ENCODED = ["head_content", "hash_deterministic", "_resolve_dependencies",
           "TagList.get_dependencies", "HTMLTextDocument._static_extract_serialized_html_deps",
           "HTMLTextDocument.render", "HTMLDocument.render", "Tag.get_html_string",
           "TagList.get_html_string", "TagList.tagify", "TagAttrDict.update", "Tag.add_class",
           "Tag.remove_class", "Tag.add_style", "css", "html_escape", "consolidate_attrs",
           "JSXTag.tagify", "HTMLDependency.serialize_to_script_json", "Tag.__enter__",
           "HTMLDependency.as_html_tags", "HTMLDependency.as_dict"]
BOUNDS = {
    "quick": "16 constructions (trees with merged attributes, dependency sets, head content, "
             "documents, text documents with serialised dependencies, JSON mode, JSX components, "
             "list operations, with-blocks, escaping, tagifiable objects, equality) with arbitrary "
             "one-character texts, names and values, run in three model processes that differ in "
             "set iteration order (given, reversed, and every permutation of sets of up to 4), "
             "hash values, object addresses, clock and random numbers; every ordered pair of "
             "constructions, one before the other in a freshly imported package, with separate and "
             "with shared objects, equal or different strings; every pair of 20 forms of "
             "head_content payloads with arbitrary texts"
             "; head content of 70 kB with arbitrary text behind it; subclasses in the "
             "constructions",
    "thorough": "the same with texts of up to 2 characters, every triple of constructions that "
                "ends in one of 6, and 3 payloads at a time",
}
COVER = ["world", "mutated", "history", "shared", "equalnames", "differentnames", "merged", "raised"]
ASSUMPTIONS = [
    "what may differ between interpreter processes is the iteration order of sets, hash() of "
    "strings, id(), the clock, the process id and random numbers; each is a hook of the executor",
    "sha1 is an injective function of its argument (no collisions); digests are otherwise opaque",
    "a fresh process is modelled by a fresh import of the package; state outside the package "
    "(environment, files) is not part of the history"]
LIMITS = {"quick": {"max_paths": 3000}, "thorough": {"max_paths": 30000}}
MAX_WITNESS = {"quick": 1200, "thorough": 5000}
SEEDS = {"quick": ("0", "1", "2", "3", "42", "1000"),
         "thorough": tuple(str(i) for i in range(24))}
HISTCS = X.cs_of("ab<&\"")
NAMECS = X.cs_of("abcdefghijklmnopqrstuvwxyz-_0123456789")


# -- inputs shared by all runs of a path ------------------------------------------------
class In:
    """Symbolic inputs under a prefix, and the objects built from them."""

    def __init__(self, S, ns, ht, n=1, cs=X.UNICODE, suf=""):
        self.S, self.ns, self.ht, self.n, self.cs, self.suf = S, ns, ht, n, cs, suf
        self.objs = {}

    def t(self, name):
        return self.S.str(self.ns + name, self.n, 1, cs=self.cs) + self.suf

    def name(self, name):
        return self.S.str(self.ns + name, 1, 1, cs=NAMECS)

    def obj(self, key, make):
        if key not in self.objs:
            self.objs[key] = make(self)
        return self.objs[key]

    def on(self, ht):
        return In(self.S, self.ns, ht, self.n, self.cs, self.suf)


def dep(i, name, ver="1.0", **kw):
    return i.ht.HTMLDependency(name, ver, **kw)


def d_url(i):
    return i.obj("d_url", lambda i: dep(i, "u" + i.name("dn"), source={"href": "/h"},
                                        script=[{"src": "a.js"}, {"src": "b.js", "defer": ""}],
                                        stylesheet={"href": "s.css"},
                                        meta={"name": "m", "content": "c"}))


def d_head(i):
    return i.obj("d_head", lambda i: dep(i, "hd", "2.0", head=i.ht.tags.title(i.t("t"))))


def h_content(i):
    return i.obj("h_content", lambda i: i.ht.head_content(i.ht.tags.style(i.t("t")), "x"))


def tag(i):
    return i.obj("tag", lambda i: i.ht.Tag("em", {"class": "k " + i.t("c")}, i.t("t"), d_head(i),
                                           _add_ws=False))


def dl(ds):
    return [[d.name, str(d.version)] for d in ds]


# -- constructions: build and render; returns the outputs --------------------------------
def k_tree(i):
    ht = i.ht
    x = ht.div({"class": i.t("c"), "id": "z"}, {"class": ht.HTML(i.t("t")), "data_b": "2"},
               ht.span(i.t("t"), ht.HTML(i.t("t"))), tag(i), class_="k", title=i.t("t"),
               style=ht.css(color="red", background=i.t("c")))
    x.add_class("n1 n2").add_class(i.t("c"), prepend=True)
    x.remove_class("n1")
    x.add_style("a:b;")
    return [str(x), list(x.attrs.items()), x.has_class("n2"), x.has_class(i.t("c"))]


def k_classes(i):
    ht = i.ht
    x = ht.div({"class": "b a " + i.t("c")}, class_="d c b")
    x.add_class("e a")
    out = [str(x)]
    x.remove_class("a")
    out += [str(x), [x.has_class(w) for w in ("a", "b", "e")]]
    y = ht.Tag("p", {"z": "1", "y": i.t("t"), "x": None, "w": True}, {"y": "2", "v": 3})
    y.attrs.update({"u": "1", "z": "3"}, t=i.t("c"), s="1")
    return out + [str(y), list(y.attrs)]


def k_deps(i):
    ht = i.ht
    a, b, c = i.name("n1"), i.name("n2"), i.name("n3")
    x = ht.TagList(dep(i, a, "1.0", source={"href": "/1"}, script={"src": "1.js"}),
                   ht.div(dep(i, b, "1.10", source={"href": "/2"}, script={"src": "2.js"}), "t"),
                   ht.span(ht.TagList(dep(i, c, "1.9", head="<!--3-->"), d_url(i))), d_head(i))
    r = x.render()
    return [dl(x.get_dependencies()), dl(x.get_dependencies(dedup=False)),
            dl(r["dependencies"]), r["html"], ht.HTMLDocument(x).render()["html"]]


def k_many(i):
    """Six dependencies and class names: room for an order to show."""
    ht = i.ht
    ds = [dep(i, n, v, source={"href": "/" + n}, script={"src": "x.js"})
          for n, v in (("omega", "1rc1"), ("alpha", "1"), (i.name("n1"), "2.dev1"), ("beta", "1+l"),
                       ("z9", "1.post1"), ("y8", "1!1rc2"))]
    doc = ht.HTMLDocument(ht.div(*ds, ht.head_content("B"), ht.head_content("A"), ds[1]))
    r = doc.render(lib_prefix=None)
    return [dl(r["dependencies"]), r["html"]]


def k_head(i):
    ht = i.ht
    a = ht.head_content(ht.tags.title(i.t("t")))
    b = ht.head_content(ht.tags.title(i.t("c")))
    s = ht.head_content(i.t("t"))
    h = ht.head_content(ht.HTML(i.t("t")))
    doc = ht.HTMLDocument(ht.div(a, ht.p("q", b, s), a, h_content(i), h))
    r = doc.render()
    return [a.name, b.name, s.name, h.name, h_content(i).name, dl(r["dependencies"]), r["html"]]


def k_doc(i):
    ht = i.ht
    doc = ht.HTMLDocument(ht.tags.html(ht.tags.head(ht.tags.title(i.t("t"))),
                                       ht.tags.body(d_url(i), tag(i), h_content(i))),
                          lang=i.t("c"), class_="z")
    doc.append(None)
    r = doc.render(lib_prefix="l", include_version=False)
    return [r["html"], dl(r["dependencies"])]


def k_body(i):
    ht = i.ht
    doc = ht.HTMLDocument(ht.tags.body(i.t("t"), d_head(i), id="b"), data_q=i.t("c"))
    r = doc.render()
    doc2 = ht.HTMLDocument(i.t("t"))
    doc2.append(d_url(i), ht.span(i.t("c")))
    return [r["html"], dl(r["dependencies"]), doc2.render(include_version=False)["html"]]


def ser(i, n, v="1.0", **kw):
    return i.ht.HTMLDependency(n, v, **kw).serialize_to_script_json().get_html_string()


def k_text(i):
    ht = i.ht
    ds = i.obj("deplist", lambda i: [d_url(i), d_head(i)])
    html = "<html>" + ser(i, "b2", script={"src": "b.js"}, source={"href": "/b"}) + "PH" + \
        ser(i, "a1", "2.0", head="<i>") + i.t("t") + ser(i, "c3", meta={"name": "q", "content": ""}) + \
        ser(i, "b2", script={"src": "b.js"}, source={"href": "/b"}) + \
        ser(i, "b2", "3", script={"src": "b.js"}, source={"href": "/b"})
    doc = ht.HTMLTextDocument(html, deps=ds, deps_replace_pattern="PH")
    r = doc.render()
    r2 = ht.HTMLTextDocument(html, deps_replace_pattern="PH").render(lib_prefix=None)
    return [r["html"], dl(r["dependencies"]), r2["html"], dl(r2["dependencies"])]


def k_json(i):
    ht = i.ht
    ht.html_dependency_render_mode = "json"
    try:
        x = ht.div(d_url(i), dep(i, "j1", meta=[{"name": "k", "content": i.t("t")}],
                                 stylesheet={"href": "a.css", "media": "m"},
                                 source={"href": "/q"}), tag(i), i.t("c"))
        s = str(x)
        return [s, str(ht.TagList(x, d_head(i))), repr(x)]
    finally:
        ht.html_dependency_render_mode = "invisible"


def k_jsx(i):
    ht = i.ht
    J = importlib_jsx(ht)
    Foo = J.jsx_tag_create("Foo")
    x = Foo(i.t("t"), tag(i), Foo(d_url(i)), prop=i.t("c"), style={"a": "b", "c": 1},
            cls=[1, True, None, i.t("t")], sub=ht.span(i.t("t"), d_head(i)))
    t = x.tagify()
    return [str(x), dl(t.get_dependencies()), ht.TagList(x, "z").render()["html"]]


def importlib_jsx(ht):
    import importlib
    return importlib.import_module(ht.__name__ + "._jsx")


def k_list(i):
    ht = i.ht
    x = ht.TagList(i.t("t"), [tag(i), None, (1, 2.5)], ht.TagList("q", ht.HTML(i.t("c"))))
    x.append("z", ht.br())
    x.extend([ht.p(i.t("t")), "e"])
    x.insert(1, i.t("c"))
    y = x + [ht.hr(), "w"]
    z = ["0"] + x
    return [x.get_html_string(2, "\n"), str(y), str(z), repr(x), len(z), str(ht.TagList(x, x))]


def k_with(i):
    ht = i.ht
    import sys
    a, b = ht.div(id="w"), ht.span(class_=i.t("c"))
    got = []
    hook = sys.displayhook
    sys.displayhook = got.append
    try:
        with a:
            sys.displayhook(i.t("t"))
            with b:
                sys.displayhook(i.t("c"))
            sys.displayhook(b)
    finally:
        sys.displayhook = hook
    return [str(a), str(b), [str(x) for x in got]]


def k_escape(i):
    ht = i.ht
    from_ = i.t("t")
    h = ht.HTML(from_)
    return [ht.html_escape(from_), ht.html_escape(from_, attr=True), str(h + i.t("c")),
            str(i.t("c") + h), str(ht.TagList(h, from_, i.t("c"))),
            str(ht.div(from_, a=from_, b=h)), str(ht.tags.script(from_)),
            ht.css(a_b=from_, c=i.t("c"))]


def k_expand(i):
    ht = i.ht
    e = C.Expander(lambda: ht.TagList(ht.p(i.t("t"), d_head(i)), "m", h_content(i)))
    f = C.Expander(lambda: ht.HTML(i.t("c")))
    x = ht.div(e, f, C.ReprObj(i.t("t")), e)
    r = x.render()
    return [r["html"], dl(r["dependencies"]), str(ht.HTMLDocument(x).render()["html"])]


def k_eq(i):
    ht = i.ht
    a = ht.div(i.t("t"), {"a": i.t("c"), "b": "1"}, d_url(i))
    b = ht.div(i.t("t"), {"b": "1", "a": i.t("c")}, d_url(i))
    cons = ht.consolidate_attrs({"class": i.t("c")}, ht.span("k"), {"class": "y"}, "z", id="q",
                                class_="v")
    return [a == b, str(a), str(b), list(cons[0].items()), len(cons[1])]


def k_dep(i):
    ht = i.ht
    d = dep(i, i.name("n1"), "1.2", source={"href": "https://x/" + i.name("n2")},
            script=[{"src": "a b.js", "type": i.t("c")}, {"async": "", "src": "z"}],
            stylesheet=[{"media": "all", "href": "c.css"}], meta=[{"name": "a", "content": i.t("t")}],
            head="<x-y>", all_files=True)
    return [d.as_dict(), str(d.as_html_tags()), d.source_path_map(lib_prefix="p"),
            dl([d]), repr(d), d.serialize_to_script_json(indent=1).get_html_string()]


def k_raise(i):
    """A construction that fails half-way: everything raised is swallowed."""
    ht = i.ht
    n = 0

    def bad(f):
        nonlocal n
        try:
            f()
        except Exception:
            n += 1
    e = C.Expander(boom)
    bad(lambda: ht.div(i.t("t"), d_url(i), C.Expander(lambda: "q")).get_html_string())
    bad(lambda: ht.div(i.t("t"), e, d_head(i)).render())
    bad(lambda: ht.HTMLDocument(ht.div(e, tag(i))).render())
    bad(lambda: ht.HTMLDependency(i.name("n1"), "1", script={"nosrc": "1"}))
    bad(lambda: ht.TagList({1, 2}, i.t("t")))
    bad(lambda: ht.head_content(C.Expander(lambda: i.t("t"))))
    bad(lambda: ht.HTMLTextDocument(i.t("t"), deps=[]))
    ht.html_dependency_render_mode = "json"
    try:
        bad(lambda: str(ht.div(d_head(i), e)))
    finally:
        ht.html_dependency_render_mode = "invisible"
    import sys
    hook = sys.displayhook
    sys.displayhook = lambda v: None
    try:
        with ht.div():
            raise ValueError
    except ValueError:
        n += 1
    finally:
        sys.displayhook = hook
    i.S.covers("raised")
    return [n]


def boom():
    raise ValueError("boom")


KINDS = ("tree", "classes", "deps", "many", "head", "doc", "body", "text", "json", "jsx", "list",
         "with", "escape", "expand", "eq", "dep", "raise")
TEXTS = KINDS


def construct(k, i):
    return globals()["k_" + k](i)


# -- comparison ----------------------------------------------------------------------------
def same(S, a, b, label):
    if isinstance(a, str) and isinstance(b, str):
        S.check_eq(a, b, label)
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        S.check(len(a) == len(b), label + " (length)")
        for x, y in zip(a, b):
            same(S, x, y, label)
    elif isinstance(a, dict) and isinstance(b, dict):
        same(S, list(a.items()), list(b.items()), label)
    elif isinstance(a, S.ht_types) or isinstance(b, S.ht_types):
        same(S, str(a), str(b), label)
    else:
        S.check(a == b, label)


def norm(x):
    """Outputs as nested lists of plain values."""
    if isinstance(x, str):
        return x
    if isinstance(x, dict):
        return [[norm(k), norm(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if x is None or isinstance(x, (bool, int, float)) or type(x).__name__ == "SymBool":
        return x
    return str(x)


# -- shapes ----------------------------------------------------------------------------------
def shapes(tier):
    q = tier == "quick"
    out = [dict(kind="world", k=k, n=n) for k in KINDS if k != "raise"
           for n in ((1,) if q else (1, 2))]
    for gap in range(len(FORMS)):
        for a in range(len(FORMS) - gap):
            out.append(dict(kind="name", f=[a, a + gap]))
    if not q:
        for a in range(0, len(FORMS)):
            for b in range(a, len(FORMS), 3):
                out.append(dict(kind="name", f=[a, b, (a + b) % len(FORMS)]))
    out += [dict(kind="mut", r=r, m=m) for r in range(len(READS)) for m in range(len(MUTS))]
    for a in KINDS:
        for b in KINDS:
            if b == "raise":
                continue
            for sh in ("own", "same", "obj"):
                if q and sh == "own" and a == b:
                    continue
                if q and sh == "own" and (KINDS.index(a) + KINDS.index(b)) % 2:
                    continue
                out.append(dict(kind="hist", x=[a], y=b, sh=sh))
    if not q:
        for b in ("head", "deps", "text", "tree", "jsx", "escape"):
            for a in itertools.product(KINDS, repeat=2):
                out.append(dict(kind="hist", x=list(a), y=b, sh="same"))
    return out


def run(S, sh):
    S.ht_types = (S.ht.Tag, S.ht.TagList, S.ht.HTML)
    globals()["r_" + sh["kind"]](S, sh)


def cleanup(S):
    if not S.concrete:
        from symx import instr
        instr.sx.set_world(None)


def fresh(S):
    if S.concrete:
        from symx import replay_main
        S.ht = replay_main.fresh()
    else:
        from symx import instr
        S.ht = instr.load()
    return S.ht


# -- worlds ------------------------------------------------------------------------------------
def r_world(S, sh):
    i = In(S, "", S.ht, sh["n"])
    if S.concrete:
        out = norm(construct(sh["k"], i))
        S.observe(out)
        S.check(True, "built")
        return
    from symx import instr
    sx = instr.sx
    outs = []
    calls = [0]

    def perm(items):
        n = len(items)
        if n < 2:
            return items
        calls[0] += 1
        if n > 4 or calls[0] > 3:
            return items[::-1]
        ps = list(itertools.permutations(range(n)))
        p = ps[S.choice("perm%d.%d" % (calls[0], n), len(ps))]
        return [items[j] for j in p]

    for w, order in ((0, None), (1, lambda items: items[::-1]), (2, perm)):
        sx.set_world(w, order)
        try:
            outs.append(norm(construct(sh["k"], i.on(S.ht))))
        finally:
            sx.set_world(None)
    same(S, outs[0], outs[1], "the same output in every interpreter process")
    same(S, outs[0], outs[2], "the same output in every interpreter process")
    S.observe(outs[0])
    S.covers("world")


# -- histories -----------------------------------------------------------------------------------
def r_hist(S, sh):
    ht = fresh(S)
    # the same strings, with special characters of both kinds, or the same objects
    i = In(S, "y.", ht, cs=HISTCS, suf="<'" if sh["sh"] == "same" else "")
    alone = norm(construct(sh["y"], i))
    ht = fresh(S)
    y = i.on(ht)
    if sh["sh"] == "own":
        x = In(S, "x.", ht, cs=HISTCS)
    elif sh["sh"] == "same":
        x = i.on(ht)
    else:
        x = y
        S.covers("shared")
    for k in sh["x"]:
        construct(k, x)
    after = norm(construct(sh["y"], y))
    S.check(ht.html_dependency_render_mode == "invisible", "the render mode is unchanged")
    same(S, alone, after, "what was built or rendered earlier has no influence")
    S.observe([alone, after])
    S.covers("history")


# -- rendering in between does not influence what comes after -----------------------------------
def bed(S, i):
    """A small world of objects that contain each other."""
    ht = i.ht
    inner = ht.span(i.t("t"), {"class": "k"})
    lst = ht.TagList("l", ht.em(i.t("c")))
    d = dep(i, "dm", "1.0", source={"href": "/d"}, script={"src": "a.js"},
            head=ht.TagList(ht.tags.title(i.t("t"))))
    outer = ht.div(inner, d, ht.p(lst), id="o")
    hc = ht.head_content(ht.tags.style(i.t("c")))
    outer.append(hc)
    return dict(ht=ht, inner=inner, lst=lst, d=d, outer=outer, doc=ht.HTMLDocument(outer, lang="x"),
                all=ht.TagList(outer, "z", inner), i=i, hc=hc)


READS = (
    lambda b: str(b["outer"]),
    lambda b: b["all"].render(),
    lambda b: b["doc"].render(),
    lambda b: b["outer"].tagify(),
    lambda b: [b["outer"].get_dependencies(), b["all"].get_dependencies(dedup=False)],
    lambda b: [b["d"].as_html_tags(), b["d"].as_dict(), b["d"].serialize_to_script_json(),
               b["d"].source_path_map()],
    lambda b: [b["inner"].get_html_string(), b["inner"] == b["outer"], b["inner"].has_class("k")],
    lambda b: [b["ht"].HTMLDocument(b["all"]).render(lib_prefix=None),
               b["ht"].HTMLDocument(b["inner"]).render()],
    lambda b: [str(C.Expander(lambda: b["outer"]).tagify()), repr(b["lst"])],
)
MUTS = (
    lambda b: b["inner"].append(b["i"].t("m")),
    lambda b: b["inner"].add_class(b["i"].t("m")),
    lambda b: b["inner"].attrs.update(id=b["i"].t("m")),
    lambda b: b["inner"].children.insert(0, b["ht"].em("q")),
    lambda b: b["inner"].remove_class("k"),
    lambda b: setattr(b["inner"], "name", "b"),
    lambda b: setattr(b["inner"], "add_ws", True),
    lambda b: b["outer"].children[2].insert(0, b["i"].t("m")),
    lambda b: b["outer"].children.pop(0),
    lambda b: b["outer"].add_style("a:b;"),
    lambda b: b["d"].script.append({"src": b["i"].name("m")}),
    lambda b: b["d"].meta.append({"name": "x", "content": b["i"].t("m")}),
    lambda b: b["d"].head.append(b["i"].t("m")),
    lambda b: setattr(b["d"], "name", "dz"),
    lambda b: b["hc"].head.append(b["i"].t("m")),
    lambda b: b["doc"].append(b["i"].t("m"), dep(b["i"], "late", head="<l>")),
    lambda b: b["outer"].append(dep(b["i"], "dm", "1.1", head="<l>")),
    lambda b: b["all"].extend([b["i"].t("m"), b["outer"]]),
    lambda b: None,
)


def seen(b):
    r = b["doc"].render()
    r2 = b["all"].render()
    return norm([str(b["inner"]), r["html"], dl(r["dependencies"]), r2["html"],
                 dl(r2["dependencies"]), str(b["d"].as_html_tags()), str(b["lst"]), b["hc"].name])


def r_mut(S, sh):
    i = In(S, "", S.ht, cs=HISTCS)
    a, b = bed(S, i), bed(S, i.on(S.ht))
    b["i"] = i
    MUTS[sh["m"]](a)
    READS[sh["r"]](b)
    MUTS[sh["m"]](b)
    READS[sh["r"]](b)
    out = seen(a)
    same(S, out, seen(b), "rendering earlier has no influence on a later state")
    S.observe(out)
    S.covers("mutated")


# -- names of head content -----------------------------------------------------------------------
class HeadRepr:
    def __init__(self, s):
        self.s = s

    def _repr_html_(self):
        return self.s


PRE = "p" * 70
HUGE = "<!--" + "h" * 70000 + "-->"
FORMS = (
    ("text", lambda h, t, u: (t + u,)),
    ("html", lambda h, t, u: (h.HTML(t + u),)),
    ("two", lambda h, t, u: (t, u)),
    ("list", lambda h, t, u: ([t, [u]],)),
    ("taglist", lambda h, t, u: (h.TagList(t, None, u),)),
    ("title", lambda h, t, u: (h.tags.title(t + u),)),
    ("title2", lambda h, t, u: (h.tags.title(t, u),)),
    ("style", lambda h, t, u: (h.tags.style(t), u)),
    ("script", lambda h, t, u: (h.tags.script(t, type=u),)),
    ("attr", lambda h, t, u: (h.tags.link(href=t, rel=u),)),
    ("attr2", lambda h, t, u: (h.tags.link({"href": h.HTML(t)}, rel=u),)),
    ("blocks", lambda h, t, u: (h.tags.meta(content=t), h.tags.meta(content=u))),
    ("nested", lambda h, t, u: (h.div(h.div(t), h.span(u)),)),
    ("repr", lambda h, t, u: (HeadRepr(t + u),)),
    ("dep", lambda h, t, u: (t, h.HTMLDependency("q", "1.0"), u)),
    ("prefix", lambda h, t, u: (PRE + t + u,)),
    ("middle", lambda h, t, u: (t + PRE + u,)),
    ("long", lambda h, t, u: (h.tags.style(h.HTML("\n" + PRE * 30 + t)), u)),
    ("space", lambda h, t, u: (" " + t + " " + u + "\n",)),
    ("empty", lambda h, t, u: (None, [])),
    ("huge", lambda h, t, u: (h.HTML(HUGE), t, u)),
)


def r_name(S, sh):
    ht = S.ht
    n = 1 if S.tier == "quick" else 2
    deps, conts, args = [], [], []
    for j, f in enumerate(sh["f"]):
        t, u = S.str("t%d" % j, n, 1), S.str("u%d" % j, 1, 1)
        a = FORMS[f][1](ht, t, u)
        args.append(a)
        d = ht.head_content(*a)
        deps.append(d)
        conts.append(ht.TagList(*a).get_html_string())
        S.check(isinstance(d, ht.HTMLDependency) and isinstance(d.name, str), "a dependency")
    for j in range(len(deps)):
        for k in range(j):
            na, nb = deps[k].name, deps[j].name
            same_name = S.match_expr(na, pat.toks_of(nb))
            same_cont = S.match_expr(conts[k], pat.toks_of(conts[j]))
            S.check(S.implies(S.expr(same_cont), S.expr(same_name)),
                    "equal rendered content has equal names")
            S.check(S.implies(S.expr(same_name), S.expr(same_cont)),
                    "different content has different names")
    # merging in a document
    groups, first = [], []
    for j, c in enumerate(conts):
        for g in groups:
            if conts[g] == c:
                S.covers("equalnames")
                first.append(g)
                break
        else:
            groups.append(j)
            first.append(j)
            if j:
                S.covers("differentnames")
    doc = ht.HTMLDocument(ht.div(*deps, deps[0])).render()
    inner = [x for x in doc["dependencies"] if x.name != "q"]
    S.check(len(inner) == len(groups), "equal content once, different content never merged")
    if len(inner) == len(groups):
        for g, x in zip(groups, inner):
            S.check_eq(x.name, deps[g].name, "order of the head content")
            S.check_eq(str(x.head), str(ht.TagList(*args[g])), "the head content is kept")
    ref = ht.HTMLDocument(ht.div(*[ht.HTMLDependency(deps[g].name, "0.0", head=ht.TagList(*a))
                                   for g, a in zip(first, args)], deps[0]))
    S.check_eq(doc["html"], ref.render()["html"], "every content is included once")
    if len(groups) < len(deps):
        S.covers("merged")
    S.observe([[d.name for d in deps], doc["html"]])


# -- replay on the real code: several interpreter processes -----------------------------------------
def replay(case, replay_cases):
    r = replay_cases([case], timeout=120)[0]
    if r.get("fails") or r.get("exc") or case["shape"]["kind"] == "name":
        return r
    base = r.get("observed")
    for s in range(1, 17):
        r2 = replay_cases([case], timeout=120, env={"PYTHONHASHSEED": str(s)})[0]
        if r2.get("fails") or r2.get("exc") or r2.get("error"):
            return r2
        if r2.get("observed") != base:
            r2["fails"] = ["the same output in every interpreter process"]
            r2["detail"] = [["PYTHONHASHSEED=0 and =%d" % s, diff(base, r2["observed"])]]
            return r2
    return r


def diff(a, b):
    a, b = repr(a), repr(b)
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
    return "%s | %s" % (a[max(0, n - 60):n + 100], b[max(0, n - 60):n + 100])


COLLIDE = r"""
import sys
sys.path.insert(0, sys.argv[1])
import htmltools, hashlib
a, b = int(sys.argv[2]), int(sys.argv[3])
out = open(sys.argv[4], "wb")
for n in range(a, b):
    m = htmltools.head_content("c%d" % n).name
    out.write(hashlib.blake2b(m.encode(), digest_size=8).digest())
"""


# contents whose SHA-1 digests agree in the first 56 bits, and in the last 48 bits
NEAR = (("h317539155", "h398528477"), ("h15031746", "h15510415"))
PAIR = r"""
import sys
sys.path.insert(0, sys.argv[1])
import htmltools
print(htmltools.head_content(sys.argv[2]).name == htmltools.head_content(sys.argv[3]).name)
"""


def near():
    """The pairs above get different names (a digest cut short shows)."""
    import subprocess
    from symx import runner
    for a, b in NEAR:
        p = subprocess.run([runner.py_real(), "-c", PAIR, runner.REPO, a, b], text=True,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"),
                           capture_output=True, cwd="/tmp", timeout=60)
        if p.stdout.strip() == "True":
            return a, b
    return None


def collisions(n):
    """Names of n different contents (a digest cut short shows as a collision)."""
    import subprocess
    import tempfile
    from symx import runner
    k = runner.NPROC
    step = (n + k - 1) // k
    d = tempfile.mkdtemp(prefix="c18")
    try:
        ps = []
        for j in range(k):
            ps.append(subprocess.Popen([runner.py_real(), "-c", COLLIDE, runner.REPO,
                                        str(j * step), str((j + 1) * step),
                                        os.path.join(d, str(j))],
                                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"),
                                       cwd=d))
        for p in ps:
            p.wait(timeout=400)
        import numpy as np
        h = np.concatenate([np.fromfile(os.path.join(d, str(j)), dtype=np.uint64)
                            for j in range(k)])
        if len(h) != k * step:
            return None, 0
        o = np.argsort(h, kind="stable")
        eq = np.nonzero(h[o][1:] == h[o][:-1])[0]
        if len(eq):
            return (int(o[eq[0]]), int(o[eq[0] + 1])), k * step
        return None, k * step
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def post(tier, seed, wit, replay_cases):
    """Witnesses again under other hash seeds; and a search for colliding names."""
    from concurrent.futures import ThreadPoolExecutor
    from symx import runner
    import random
    cases = [(c, o) for c, o in wit if c["shape"]["kind"] != "name"]
    rng = random.Random(seed)
    if len(cases) > 200:
        cases = rng.sample(cases, 200)
    bad = []
    seeds = SEEDS[tier]
    jobs = ["0"] + [s for s in seeds if s != "0"]
    with ThreadPoolExecutor(runner.NPROC) as ex:
        res = list(ex.map(lambda s: replay_cases([c for c, _ in cases], timeout=300,
                                                 env={"PYTHONHASHSEED": s}), jobs))
    base = res[0]
    for s, rs in zip(jobs[1:], res[1:]):
        for (c, _), b, r in zip(cases, base, rs):
            if b.get("error") or r.get("error"):
                continue
            if r.get("fails") or r.get("exc") or b.get("observed") != r.get("observed"):
                if not (r.get("fails") or r.get("exc")):
                    r["fails"] = ["the same output in every interpreter process"]
                    r["detail"] = [["PYTHONHASHSEED=0 and =" + s,
                                    diff(b.get("observed"), r.get("observed"))]]
                if len(bad) < 10:
                    bad.append((c, dict(label="hash seeds"), r))
    hit, n = collisions(200000 if tier == "quick" else 6000000)
    hit = ("c%d" % hit[0], "c%d" % hit[1]) if hit else near()
    if hit:
        case = dict(prop="C18", shape=dict(kind="collide"), env={}, tier=tier)
        bad.append((case, dict(label="collision"),
                    dict(fails=["different content has different names"],
                         detail=[["head_content(%r) and head_content(%r)" % hit, ""]])))
    return dict(hash_seed_runs=len(cases) * len(jobs), names_compared=n), bad
