"""C13  Serialised dependencies round-trip through HTML text."""
from props import common as C
from props.common import El, H, T
from props import c11
from symx import expr as X
from symx import pat

ENCODED = ["HTMLDependency.serialize_to_script_json", "HTMLTextDocument.__init__",
           "HTMLTextDocument.render", "HTMLTextDocument._extract_serialized_html_deps",
           "HTMLTextDocument._static_extract_serialized_html_deps", "HTMLDependency.__init__",
           "HTMLDependency.as_html_tags", "HTMLDependency.as_dict", "_render_tag_or_taglist"]
BOUNDS = {
    "quick": "one dependency with any one of 16 fields an arbitrary string of up to 2 characters "
             "(any Unicode scalar value), or '</script' in every letter case between two arbitrary "
             "characters, or one of the other hostile texts with an arbitrary character; 6 values "
             "of indent; up to 3 serialised copies (any equalities between them, 2 indents) "
             "interleaved with 4 arbitrary characters of text, or 1 or 2 with up to 4 on a side; placeholders of 7 kinds occurring 0 "
             "to 3 times at any position among text and copies; 6 kinds of trees rendered in JSON "
             "mode, with and without nested dependencies and duplicates; lib_prefix and "
             "include_version on/off"
             "; 60 copies, 60 files and metas in one dependency, texts of 6000 characters "
             "around; arbitrary placeholder texts; placeholders inside copies",
    "thorough": "field strings of up to 3 characters, up to 4 serialised copies of 3 dependencies",
}
COVER = ["roundtrip", "endtag", "copies", "merged", "replaced", "absent", "jsonmode", "listing"]
ASSUMPTIONS = ["field strings contain no lone surrogates; source directories no NUL",
               "the text around serialised dependencies does not itself contain the opening tag of "
               "a serialised dependency, and joining the pieces of text left by the removal does "
               "not form the placeholder",
               "package sources are concrete (rendering imports the package)",
               "json.dumps and json.loads are modelled (RFC 8259, ensure_ascii, indent); every "
               "path is validated against the real functions"]
OPEN = '<script type="application/json" data-html-dependency="">'
FIELDS = ("name", "subdir", "href", "src", "key", "val", "css", "csskey", "metaname",
          "metacontent", "metakey", "headstr", "headtag", "headraw", "headattr", "headhtml")
TEXTS = ("any", "end", "endspace", "comment", "quotes", "ref", "nested")
INDENTS = (None, 2, 0, 1, 4, 7, 8, 13)
HOLDERS = ('<meta data-foo="">', "{{deps}}", ".*", "\\1", "ab", "</head>", "\\g<0>")


def shapes(tier):
    q = tier == "quick"
    out = [dict(kind="field", f=f, t=t) for f in FIELDS for t in TEXTS]
    out += [dict(kind="indent", i=i) for i in range(len(INDENTS))]
    out += [dict(kind="shape", n=i) for i in range(len(SHAPES))]
    nd = 2 if q else 3
    seqs = [""]
    for _ in range(3 if q else 4):
        seqs = seqs + [s + c for s in seqs if len(s) == len(max(seqs, key=len))
                       for c in "abc"[:nd]]
    out += [dict(kind="seq", s=s) for s in seqs if s and s[0] == "a"]
    out += [dict(kind="hold", h=h, m=m) for h in range(len(HOLDERS)) for m in range(4)]
    for a, b in ((0, 4), (4, 0), (2, 3), (3, 2)) + (((0, 7), (7, 0), (5, 5)) if not q else ()):
        out += [dict(kind="around", a=a, b=b, n=n) for n in (1, 2)]
    out += [dict(kind="large", w=w) for w in ("copies", "kinds", "files", "text")]
    out += [dict(kind="symhold"), dict(kind="holdin")]
    out += [dict(kind="mode", t=t, how=h) for t in range(len(TREES)) for h in range(3)]
    return out


def text(S, kind, q):
    c = S.str("c", 2 if q else 3, 0) if kind == "any" else S.str("c", 1, 1)
    if kind == "any":
        return c
    if kind in ("end", "endspace"):
        S.covers("endtag")
        w = "</"
        for i, ch in enumerate("script"):
            w = w + S.str("e%d" % i, 1, 1, cs=X.cs_of([ch, ch.upper()]))
        return c + w + (">" if kind == "end" else "") + S.str("c2", 1, 1)
    return {"comment": "<!--<script>" + c, "quotes": '\\"' + c + "\\u0041", "ref": "&lt;/script" + c,
            "nested": OPEN + "{" + c + "}"}[kind]


# -- dependencies ------------------------------------------------------------------------
def dep(S, f, v, full=True):
    """A dependency with text v in field f; -> (object, name, script, stylesheet, meta)."""
    ht = S.ht
    g = lambda field, other: v if f == field else other
    name = g("name", "dep")
    if f == "subdir":
        S.assume(S.any_in(v, X.cs_of("\0")) == False)     # noqa: E712  (not a path)
        source = {"subdir": v}
    elif f == "href":
        source = {"href": v}
    else:
        source = [None, {"subdir": "s"}, {"href": "//h"}][S.choice("source", 3)] \
            if f == "name" and full else None
    script = [{"src": g("src", "a.js"), "type": "m"}]
    if f == "key":
        S.assume(v != "src")
        script[0][v] = "x"
    if f == "val":
        script.append({"src": "b.js", "defer": v})
    sheet = []
    if f in ("css", "csskey"):
        sheet = [{"href": g("css", "a.css")}]
        if f == "csskey":
            S.assume(v != "href")
            S.assume(v != "rel")
            sheet[0][v] = ""
    meta = []
    if f.startswith("meta"):
        meta = [{"name": g("metaname", "n"), "content": g("metacontent", "d")}]
        if f == "metakey":
            S.assume(v != "name")
            S.assume(v != "content")
            meta[0][v] = "x"
    head = {"headstr": lambda: v, "headtag": lambda: ht.Tag("title", v),
            "headraw": lambda: ht.TagList(ht.Tag("style", v), ht.Tag("p", ht.Tag("b"))),
            "headattr": lambda: ht.Tag("base", {"href": v}),
            "headhtml": lambda: ht.TagList(ht.HTML(v), "&", ht.HTML(v))}.get(f, lambda: None)()
    d = ht.HTMLDependency(name, S.pick("ver", ("1.0", "1!2.0.post1")) if f == "name" and full else "1.0",
                          source=source, script=script, stylesheet=sheet, meta=meta, head=head,
                          all_files=S.flag("all") if f in ("name", "src") and full else False)
    return d


def same_str(S, a, b, label):
    S.check_eq(a, b, label)


def same(S, a, b, label):
    """Equal JSON-like values."""
    if isinstance(b, str):
        S.check_eq(a, b, label)
    elif isinstance(b, (list, tuple)):
        S.check(isinstance(a, list) and len(a) == len(b), label)
        if isinstance(a, list) and len(a) == len(b):
            for x, y in zip(a, b):
                same(S, x, y, label)
    elif isinstance(b, dict):
        S.check(isinstance(a, dict) and len(a) == len(b), label)
        if isinstance(a, dict) and len(a) == len(b):
            for l, y in b.items():        # the order of the keys does not matter
                k = [k for k in a if S.plain(k) == S.plain(l)]
                S.check(len(k) == 1, label)
                if k:
                    S.check_eq(k[0], l, label)
                    same(S, [x for q, x in a.items() if q is k[0]][0], y, label)
    else:
        S.check(a is b or (type(a) is type(b) and a == b), label)


def equal(S, g, d, label="the dependency is recovered"):
    S.check(type(g) is S.ht.HTMLDependency, label)
    if type(g) is not S.ht.HTMLDependency:
        return
    same(S, g.name, d.name, label + ": name")
    S.check(str(g.version) == str(d.version) and g.version == d.version, label + ": version")
    for k in ("source", "script", "stylesheet", "meta", "all_files"):
        same(S, getattr(g, k), getattr(d, k), label + ": " + k)
    if d.head is None:
        S.check(g.head is None, label + ": head")
    else:
        S.check(g.head is not None, label + ": head")
        if g.head is not None:
            S.check_eq(g.head.get_html_string(), d.head.get_html_string(), label + ": head")


def serial(S, d, *a, **k):
    """The serialised element, checked for premature end tags."""
    e = d.serialize_to_script_json(*a, **k).get_html_string()
    S.check_match(e, pat.lit(OPEN) + pat.anything() + pat.lit("</script>"), "a JSON <script> element")
    body = e[:-9]
    S.check(S.contains(body, "</script", True) == False,     # noqa: E712
            "no end tag inside the serialised element")
    return e


# -- expected markup ---------------------------------------------------------------------
def url(S, d, f, lp, iv):
    if d.source is None:
        return f
    if "href" in d.source:
        return d.source["href"].rstrip("/") + "/" + f
    return (lp.rstrip("/") + "/" if lp else "") + d.name + \
        ("-" + str(d.version) if iv else "") + "/" + f


def markup(S, deps, lp="lib", iv=True):
    """The listing and the tags of the dependencies, as in the <head> of an HTMLDocument."""
    if not deps:
        return ()
    S.covers("listing")
    t = ""
    for i, d in enumerate(deps):
        t = t + (";" if i else "") + d.name + "[" + str(d.version) + "]"
    out = [El("script", T(t), attrs=[("type", "application/html-dependencies")], raw=True)]
    for d in deps:
        for m in d.meta:
            out.append(c11.any_order(El("meta", attrs=list(m.items()))))
        for s in d.stylesheet:
            a = [(k, url(S, d, v, lp, iv) if k == "href" else v) for k, v in s.items() if k != "rel"]
            out.append(c11.any_order(El("link", attrs=a + [("rel", "stylesheet")])))
        for s in d.script:
            a = [(k, url(S, d, v, lp, iv) if k == "src" else v) for k, v in s.items()]
            out.append(c11.any_order(El("script", attrs=a, raw=True)))
        if d.head is not None:
            out.append(H(d.head.get_html_string()))
    return C.lines(out, 0, "\n")


PH = "@PLACE@"


def run(S, sh):
    {"field": field, "indent": indent, "shape": form, "seq": seq, "hold": hold, "symhold": symhold,
     "holdin": holdin, "mode": mode, "around": around, "large": large}[sh["kind"]](S, sh)


def recover(S, html, deps=None, **kw):
    doc = S.ht.HTMLTextDocument(html, deps, deps_replace_pattern=PH) if deps is not None else \
        S.ht.HTMLTextDocument(html, deps_replace_pattern=PH)
    r = doc.render(**kw)
    again = doc.render(**kw)
    S.check_eq(again["html"], r["html"], "a second rendering is the same")
    S.check(len(again["dependencies"]) == len(r["dependencies"]), "a second rendering is the same")
    return r


def field(S, sh):
    v = text(S, sh["t"], S.tier == "quick")
    d = dep(S, sh["f"], v, sh["t"] in ("quotes", "ref"))
    kw = {"indent": 2} if sh["f"] == "val" else {}
    e = serial(S, d, **kw)
    r = recover(S, "<p>" + e + "</p>" + "@")
    S.check_match(r["html"], pat.lit("<p></p>@"), "the serialised script is removed, nothing else")
    got = r["dependencies"]
    S.check(len(got) == 1, "one dependency is recovered")
    if len(got) == 1:
        equal(S, got[0], d)
    S.covers("roundtrip")
    S.observe([e, r["html"]])


def indent(S, sh):
    i = INDENTS[sh["i"]]
    f = S.pick("f", ("headtag", "val", "metacontent"))
    d = dep(S, f, S.str("c", 1, 1) if f == "headtag" else
            S.pick("end", ("</script", "</SCRIPT\t")) + S.str("c", 1, 1) + "</")
    how = S.choice("how", 2)
    e = serial(S, d, i) if how else serial(S, d, indent=i)
    r = recover(S, "<p>\n" + PH + e + "</p>")
    S.check_match(r["html"], pat.lit("<p>\n") + markup(S, [d]) + pat.lit("</p>"),
                  "the placeholder becomes the listing and the markup")
    S.check(len(r["dependencies"]) == 1, "one dependency is recovered")
    for g in r["dependencies"]:
        equal(S, g, d)
    # the element rendered inside other markup, and through str() and HTML()
    o = S.choice("wrap", 4)
    tag = d.serialize_to_script_json(indent=i)
    ht = S.ht
    host = [lambda: ht.Tag("div", ht.Tag("p", tag), "x").get_html_string(),
            lambda: ht.TagList("x", tag, ht.Tag("b")).get_html_string(3),
            lambda: ht.Tag("span", ht.HTML(str(tag)), _add_ws=False).get_html_string(),
            lambda: ht.TagList(ht.Tag("div", tag, tag)).get_html_string(eol="\r\n")][o]()
    r = recover(S, host)
    S.check(len(r["dependencies"]) == 1, "one dependency is recovered from nested markup")
    for g in r["dependencies"]:
        equal(S, g, d)
    S.check(S.contains(r["html"], "application/json") == False,     # noqa: E712
            "every serialised script is removed")
    S.observe([e, r["html"]])


SHAPES = (
    dict(),
    dict(script={"src": "a.js"}),
    dict(script=[{"src": "a.js", "defer": ""}, {"async": "", "src": "a.js"}], all_files=True),
    dict(stylesheet=[{"href": "a.css", "media": "x"}, {"href": "a.css"}],
         source={"href": "https://x.org/"}),
    dict(meta=[{"name": "n", "content": ""}, {"name": "n", "content": "</", "x": "\\/"}]),
    dict(source={"package": "htmltools", "subdir": "lib"}, script={"src": "d/e.js"}),
    dict(source={"subdir": ""}, head=""),
    dict(head="<!-- </Script --> &amp; \u2028 \U0001f600 \x00 \x7f"),
    dict(script=[], stylesheet=[], meta=[], source={"href": ""}),
)


def form(S, sh):
    """Concrete dependencies of every form, with symbolic names, versions and flags."""
    kw = dict(SHAPES[sh["n"]])
    if S.flag("all"):
        kw["all_files"] = True
    name = S.str("n", 1, 1, cs=X.cs_of("abcxyz-_.09"))
    d = S.ht.HTMLDependency(name, S.pick("v", ("1.0", "01.2rc1", "1!3+l.4")), **kw)
    a, b = S.str("a", 1, 0), S.str("b", 1, 0)
    lp, iv = S.pick("lp", ("lib", None, "x/y")), S.flag("iv")
    r = recover(S, a + PH + b + serial(S, d, indent=S.pick("i", (None, 3))) + b,
                lib_prefix=lp, include_version=iv)
    S.check_match(r["html"], pat.lit(a) + markup(S, [d], lp, iv) + pat.lit(b + b),
                  "the placeholder becomes the listing and the markup")
    S.check(len(r["dependencies"]) == 1, "one dependency is recovered")
    for g in r["dependencies"]:
        equal(S, g, d)
        if d.head is None:
            S.check(g == d, "the recovered dependency is equal to the original")
    S.covers("roundtrip")
    S.observe(r["html"])


# -- several copies ----------------------------------------------------------------------
def seq(S, sh):
    letters = sorted(set(sh["s"]))
    deps = {}
    for i, c in enumerate(letters):
        name = S.str("n%d" % i, 1, 1, cs=X.cs_of("pqrs"))
        deps[c] = S.ht.HTMLDependency(name, "1.0", script={"src": "z.js"},
                                      head=[None, "h<", None][i])
    out, last = [], []
    html = PH
    texts = [PH]
    for i, c in enumerate(sh["s"]):
        t = S.str("t%d" % i, 1, 1)
        k = S.flag("i%d" % i)
        e = serial(S, deps[c], indent=1 if k else None)
        html = html + t + e
        texts.append(t)
        for (q, kq) in out:
            if k == kq and (q is deps[c] or bool(q.name == deps[c].name) and
                            (q.head is None) == (deps[c].head is None)):
                S.covers("merged")
                break
        else:
            out.append((deps[c], k))
    t = S.str("tn", 1, 1)
    html = html + t
    texts.append(t)
    given = []
    if S.flag("given"):
        g = S.ht.HTMLDependency("g", "2.0", script={"src": "g.js"})
        given = [g]
    r = recover(S, html, list(given)) if given else recover(S, html)
    want = given + [q for q, _ in out]
    got = r["dependencies"]
    S.check(len(got) == len(want), "one dependency per distinct serialisation")
    if len(got) == len(want):
        for g, d in zip(got, want):
            equal(S, g, d)
    p = markup(S, want)
    for t in texts[1:]:
        p = p + pat.lit(t)
    S.check_match(r["html"], p, "markup at the placeholder, scripts removed, other text unchanged")
    S.covers("copies")
    S.observe(r["html"])


def around(S, sh):
    """Longer arbitrary text before, between and after serialised copies."""
    a, b = S.str("a", sh["a"], 0), S.str("b", sh["b"], 0)
    d = S.ht.HTMLDependency("dep", "1.0", script={"src": "z.js"})
    e = serial(S, d)
    html, p = a + e + b, pat.lit(a) + pat.lit(b)
    if sh["n"] == 2:
        html, p = html + serial(S, d, indent=1) + a, p + pat.lit(a)
    r = S.ht.HTMLTextDocument(html, deps_replace_pattern=PH).render()
    S.check_match(r["html"], p, "the serialised script is removed, nothing else")
    S.check(len(r["dependencies"]) == sh["n"], "one dependency per distinct serialisation")
    for g in r["dependencies"]:
        equal(S, g, d)
    S.covers("copies")
    S.observe(r["html"])


def large(S, sh):
    """Many copies, many files in one dependency, long texts."""
    ht, w = S.ht, sh["w"]
    s = S.str("s", 1, 1)
    at = S.pick("at", (0, 1, 30, 59))
    if w == "copies":
        d = ht.HTMLDependency("n", "1.0", script={"src": "z.js"}, head=s)
        ds, want = [d] * 60, [d]
    elif w == "kinds":
        ds = want = [ht.HTMLDependency("n%d" % i, "1.%d" % i, script={"src": "z.js"},
                                       head=s if i == at else None) for i in range(60)]
    elif w == "files":
        d = ht.HTMLDependency("n", "1.0", source={"href": "h"},
                              script=[{"src": "f%d.js" % i, "k": s if i == at else "v"} for i in range(60)],
                              stylesheet=[{"href": "f%d.css" % i} for i in range(60)],
                              meta=[{"name": "m%d" % i, "content": "c"} for i in range(60)])
        ds = want = [d]
    else:
        k = {0: 0, 1: 1, 30: 900, 59: 6000}[at]
        d = ht.HTMLDependency("n", "1.0", script={"src": "z.js"}, head="<" + "h" * k + s)
        ds = want = [d]
    gap = "<p>\n" + "x" * {0: 1, 1: 80, 30: 1000, 59: 7}[at] if w == "text" else "t"
    html, rest = PH + s, pat.lit(s)
    for d in ds:
        html = html + gap + serial(S, d, indent=2 if w == "files" else None)
        rest = rest + pat.lit(gap)
    html, rest = html + gap + s, rest + pat.lit(gap) + pat.lit(s)
    r = recover(S, html)
    S.check(len(r["dependencies"]) == len(want), "one dependency per distinct serialisation")
    for g, d in zip(r["dependencies"], want):
        equal(S, g, d)
    S.check_match(r["html"], markup(S, want) + rest,
                  "markup at the placeholder, scripts removed, other text unchanged")
    S.covers("copies")
    S.observe(r["html"])


# -- placeholders ------------------------------------------------------------------------
def hold(S, sh):
    """The placeholder at any place among text and a serialised copy."""
    ph, m = HOLDERS[sh["h"]], sh["m"]
    d = S.ht.HTMLDependency("dep", "1.0", script={"src": "z.js"}, head=ph if S.flag("inhead") else None)
    given = S.pick("given", (False, True, None))      # None: no dependencies at all
    cs = X.cs_minus(X.UNICODE, X.cs_of(ph))
    t = [S.str("t%d" % i, 1, 1, cs=cs if i < m else X.UNICODE) for i in range(m + 1)]
    at = S.choice("at", m + 2) if given is False else -1
    html, plain = "", ()
    first = True
    for i in range(m + 1):
        if at == i:
            html = html + serial(S, d)
        html = html + t[i]
        plain = plain + pat.lit(t[i])
        if i < m:
            html = html + ph
            plain = plain + (pat.lit(ph) if not first else () if given is None else markup(S, [d]))
            first = False
    if at == m + 1:
        html = html + serial(S, d)
    doc = S.ht.HTMLTextDocument(html, [d], ph) if given else \
        S.ht.HTMLTextDocument(html, deps_replace_pattern=ph)
    r = doc.render()
    S.check_match(r["html"], plain, "only the first occurrence of the placeholder is replaced")
    S.check(len(r["dependencies"]) == (0 if given is None else 1), "one dependency")
    for g in r["dependencies"]:
        equal(S, g, d)
    r2 = doc.render()
    S.check_eq(r2["html"], r["html"], "rendering twice gives the same text")
    S.covers("replaced" if m else "absent")
    S.observe(r["html"])


def symhold(S, sh):
    """An arbitrary one-character placeholder and arbitrary text."""
    ph = S.str("ph", 1, 1)
    n = S.choice("n", 4)
    t = [S.str("t%d" % i, 1, 1) for i in range(n)]
    d = S.ht.HTMLDependency("dep", "1.0", script={"src": "z.js"}) if S.flag("some") else None
    html = ""
    plain, done = (), False
    for x in t:
        html = html + x
        if not done and bool(x == ph):
            done = True
            plain = plain + markup(S, [d] if d else [])
            S.covers("replaced")
        else:
            plain = plain + pat.lit(x)
    r = S.ht.HTMLTextDocument(html, [d] if d else [], ph).render()
    S.check_match(r["html"], plain, "only the first occurrence of the placeholder is replaced")
    S.observe(r["html"])


def holdin(S, sh):
    """The placeholder also occurs inside the serialised dependency and in its markup."""
    ph = "zz.js"
    d = S.ht.HTMLDependency("dep", "1.0", script={"src": "zz.js"}, head="zz.js")
    a, b = S.str("a", 1, 1), S.str("b", 1, 1)
    before = S.flag("before")
    html = a + (serial(S, d) if before else "") + ph + b + ("" if before else serial(S, d)) + ph
    r = S.ht.HTMLTextDocument(html, deps_replace_pattern=ph).render()
    S.check_match(r["html"], pat.lit(a) + markup(S, [d]) + pat.lit(b + ph),
                  "only the first occurrence of the placeholder is replaced")
    S.covers("replaced")
    S.observe(r["html"])


# -- JSON mode ---------------------------------------------------------------------------
def tree(S, t):
    ht = S.ht
    n = S.str("n", 1, 1, cs=X.cs_of("pqr"))
    c = S.str("c", 1, 1)
    a = ht.HTMLDependency(n, "1.0", script={"src": "a.js"}, head=ht.Tag("title", c))
    b = ht.HTMLDependency("p", S.pick("v", ("1.0", "1.1")), stylesheet={"href": "b.css"},
                          source={"subdir": "s"})
    h = ht.head_content(ht.Tag("style", "x"), "&")
    nest = ht.HTMLDependency("o", "1", head=ht.TagList(ht.Tag("base", a), b))
    return [lambda: ht.Tag("div", a, "t<", ht.Tag("p", b)),
            lambda: ht.TagList(a, b, a, "t", ht.HTMLDependency("bare", "1"),
                              ht.HTMLDependency("s", "1", meta={"name": "m", "content": "k"})),
            lambda: ht.TagList("x", ht.Tag("span", ht.Tag("b", h), h, _add_ws=False), a),
            lambda: ht.Tag("p", "no dependencies", c),
            lambda: ht.TagList(ht.Tag("p"), C.Expander(lambda: ht.TagList("e", b, ht.Tag("i", a)))),
            lambda: ht.Tag("div", nest, b)][t]()


TREES = range(6)


def mode(S, sh):
    """str() in JSON mode, post-processed, is equivalent to rendering directly."""
    ht = S.ht
    x = tree(S, sh["t"])
    direct = x.render()
    S._mode = ht.html_dependency_render_mode
    try:
        ht.html_dependency_render_mode = "json"
        s = [str, repr, lambda y: y._repr_html_()][sh["how"]](x)
    finally:
        ht.html_dependency_render_mode = S._mode
    a, b = S.str("a", 1, 0), S.str("b", 1, 0)
    r = recover(S, PH + a + s + b)
    got = r["dependencies"]
    want = direct["dependencies"]
    S.check(len(got) == len(want), "the same dependencies as rendering directly")
    if len(got) == len(want):
        for g, d in zip(got, want):
            equal(S, g, d)
    S.check_match(r["html"], markup(S, want) + pat.lit(a) + pat.lit(direct["html"]) +
                  (pat.ws(X.cs_of("\n")) if want else ()) + pat.lit(b),
                  "the same markup as rendering directly")
    S.covers("jsonmode")
    S.observe(r["html"])
