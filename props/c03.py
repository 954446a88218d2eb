"""C03  Attribute values are inert, single-line, and decode to the original."""
from symx import pat
from symx.session import UNICODE
from props import common as C

ENCODED = ["htmltools._util.html_escape", "TagAttrDict.*", "Tag.__init__", "Tag.get_html_string",
           "Tag.add_class", "Tag.add_style", "HTML.__add__", "HTML.__radd__", "HTML.as_string",
           "consolidate_attrs", "HTMLDocument.render"]
BOUNDS = {
    "quick": "every string of up to 8 scalar values for a single plain value (3 in nested tags, 2 "
             "per value when several are merged), runs of one character of length 0..6000, merges of up to 4 plain/"
             "HTML() values in every order, up to 12 attributes, ints in +-10^7, listed floats"
             "; values of str subclasses; values set again later; 130 attributes; attribute "
             "names with every separator",
    "thorough": "strings of up to 12 (3 when merged), merges of up to 5 values",
}
COVER = ["escaped", "plain"]

WAYS = ("kw", "dict", "update", "update-dict", "setitem", "ctor-attrdict", "consolidate",
        "doc-attr", "doc-user-html", "render", "list", "nested", "add_class",
        "add_style", "dep-script", "dep-meta")
MERGE = ("kw+dict", "dict+dict", "update", "add_class", "add_class_pre", "add_style",
         "add_style_pre", "consolidate")


def shapes(tier):
    import itertools
    out = []
    for w in WAYS:
        for el in ("div", "a", "br", "script") if w in ("kw", "dict") else ("div",):
            out.append(dict(kind="one", w=w, el=el))
    for w in MERGE:
        for n in (2, 3, 4) + ((5,) if tier == "thorough" else ()):
            if w == "kw+dict" and n < 2:
                continue
            for ks in itertools.product("ph", repeat=n):
                if n >= 4 and w not in ("dict+dict", "add_class") and tier == "quick":
                    continue
                out.append(dict(kind="merge", w=w, ks="".join(ks)))
    for ks in ("pn", "np", "hn", "nh", "pt", "tp", "ht", "th", "px", "xp", "hx", "xh", "pnh", "hnp",
               "phpx", "tht", "nn", "tt"):
        for w in MERGE:
            out.append(dict(kind="merge", w=w, ks=ks))
    for ch in "a&<>\"'\r\n\u2028":
        out.append(dict(kind="long", ch=ch))
    out.append(dict(kind="num"))
    out.append(dict(kind="float"))
    out.append(dict(kind="special"))
    out.append(dict(kind="way", w="nested", depth=60))
    out += [dict(kind="both"), dict(kind="many", n=12), dict(kind="many", n=130)]
    out.append(dict(kind="name"))
    out.append(dict(kind="sub"))
    out.append(dict(kind="later"))
    return out


def cover(S, t):
    m = S.any_in(t, C.X.cs_of("&<>\"'\r\n"))
    S.covers("escaped" if (m if S.concrete else S.run.ev(S.expr(m))) else "plain")


def tag_pat(name, attrs, void=False):
    """attrs: list of (name, value pattern)"""
    p = pat.seq("<", name)
    for k, v in attrs:
        p += pat.seq(" ", k, '="') + v + ('"',)
    return p + (("/>",) if void else pat.seq("></", name, ">"))


def run(S, sh):
    ht = S.ht
    kind = sh["kind"]
    big = S.tier != "quick"
    if kind == "one":
        t = S.str("v", (6 if big else 3) if sh["w"] == "nested" else 12 if big else 8)
        cover(S, t)
        one(S, sh, t)
    elif kind == "merge":
        merge(S, sh["w"], sh["ks"], 3 if big and len(sh["ks"]) < 5 else 2)
    elif kind == "long":
        t = S.str("a", 1, 1) + S.rep("n", sh["ch"], 0, 6000) + S.str("b", 1, 1)
        emit(S, ht.Tag("div", {"x": t}), "div", [("x", pat.attr(t))], "long value")
    elif kind == "both":
        # the same string as text and as values, in every order
        t = S.str("v", 3)
        u = pat.attr(t)
        d = ht.Tag("div", ht.Tag("p", t), {"x": t}, ht.Tag("p", t, y=t))
        S.check_match(ht.TagList(t, d).get_html_string(), pat.enc(t) + pat.seq('\n<div x="') + u +
                      pat.seq('">\n  <p>') + pat.enc(t) + pat.seq('</p>\n  <p y="') + u + pat.seq('">') +
                      pat.enc(t) + pat.seq("</p>\n</div>"), "text and value of the same string")
    elif kind == "num":
        v = S.int("v", -10**7, 10**7)
        w = S.int("w", -10, 10)
        d = ht.Tag("div", {"x": v}, y=w)
        d.attrs["z"] = v
        emit(S, d, "div", [("x", pat.lit(str(v))), ("y", pat.lit(str(w))), ("z", pat.lit(str(v)))],
             "numeric value")
    elif kind == "float":
        v = S.pick("f", [x for x in C.FLOATS if not isinstance(x, bool)]
                   + [1.0, -1.0, 0, 1, -1])
        emit(S, ht.Tag("div", x=v), "div", [("x", pat.lit(str(v)))], "float value")
    elif kind == "special":
        items = [True, False, None, "", "x"]
        vals = [S.pick("k%d" % i, items) for i in range(4)]
        d = ht.Tag("div", {"a": vals[0], "b": vals[1]}, c=vals[2])
        d.attrs.update(d=vals[3])
        exp = [(k, pat.lit("" if v is True else v)) for k, v in zip("abcd", vals)
               if v is not None and v is not False]
        emit(S, d, "div", exp, "True/False/None")
    elif kind == "many":
        n = sh["n"]
        at = C.spot(S, n)
        t = S.str("v", 1)
        vals = [t if i == at else "k%d" % i for i in range(n)]
        d = ht.Tag("div", {"a%d" % i: v for i, v in enumerate(vals)})
        emit(S, d, "div", [("a%d" % i, pat.attr(v)) for i, v in enumerate(vals)],
             "many attributes")
        el = ht.Tag("div", ht.Tag("img", {"b%d" % i: v for i, v in enumerate(vals)}, _add_ws=False), _add_ws=False)
        S.check_match(el.get_html_string(), pat.seq("<div>") + tag_pat(
            "img", [("b%d" % i, pat.attr(v)) for i, v in enumerate(vals)], True) + ("</div>",),
            "many attributes on a void element")
    elif kind == "name":
        nm = S.str("name", 10, 1, cs=C.X.cs_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-"
                                               "0123456789:."),
                   first=C.X.cs_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"))
        t = S.str("v", 2)
        cover(S, t)
        emit(S, ht.Tag("div", {nm: t}), "div", [(nm, pat.attr(t))], "any attribute name")
        el = S.str("el", 8, 1, cs=C.X.cs_of("abcdefghijklmnopqrstuvwxyz-0123456789"),
                   first=C.X.cs_of("abcdefghijklmnopqrstuvwxyz"))
        out = ht.Tag(el, ht.MetadataNode(), "x", {"y": t}).get_html_string()
        S.check_match(out, pat.seq("<", el, ' y="') + pat.attr(t) + pat.seq('">x</', el, ">"),
                      "any element name")
    elif kind == "sub":
        v = C.Str2(S.pick("v", ["<s&>", 'a"b', "x"]))
        emit(S, ht.Tag("div", x=v), "div", [("x", pat.attr(str(v)))], "str subclass value")
        m = C.StrMarkup(str(v))
        h = ht.HTML("<h&>")
        for a in (v, m):
            for vals in ([a, h], [h, a], [a, a], ["p\"", a], [a, "p\""], [h, a, "'"], [a, h, a]):
                p = ()
                for i, x in enumerate(vals):
                    p += ((" ",) if i else ()) + (pat.lit("<h&>") if x is h else pat.attr(str.__str__(x)))
                emit(S, ht.Tag("div", *[{"x": x} for x in vals]), "div", [("x", p)],
                     "merged str subclass value")
                d = ht.Tag("div")
                for x in vals:
                    d.add_class(x)
                emit(S, d, "div", [("class", p)], "merged str subclass class")
    elif kind == "later":
        # item assignment replaces; values given later are escaped too; repeated rendering
        a, b = S.str("a", 2), S.str("b", 2)
        d = ht.Tag("div", x=a)
        first = str(d)
        S.check_match(first, tag_pat("div", [("x", pat.attr(a))]), "first rendering")
        d.attrs["x"] = b
        d.attrs["y"] = a
        emit(S, d, "div", [("x", pat.attr(b)), ("y", pat.attr(a))], "assignment after rendering")


def emit(S, tag, name, attrs, label):
    p = tag_pat(name, attrs)
    k = S.int("indent", 0, 40)
    out = tag.get_html_string(k)
    S.observe(out)
    S.check_match(out, C.spaces(k) + p, label)
    S.check_match(str(tag), p, label + " (str)")


def one(S, sh, t):
    ht = S.ht
    w = sh["w"]
    el = sh["el"]
    p = pat.attr(t)
    if w == "kw":
        d = ht.Tag(el, x=t)
    elif w == "dict":
        d = ht.Tag(el, {"x": t})
    elif w == "update":
        d = ht.Tag(el)
        d.attrs.update(x=t)
    elif w == "update-dict":
        d = ht.Tag(el, x="old")
        d.attrs.update({"x": t})
    elif w == "setitem":
        d = ht.Tag(el, x="old")
        d.attrs["x"] = t
    elif w == "ctor-attrdict":
        d = ht.Tag(el)
        d.attrs = type(d.attrs)({"x": t})
    elif w == "consolidate":
        attrs, _ = ht.consolidate_attrs({"x": t})
        d = ht.Tag(el, attrs)
    elif w == "add_class":
        d = ht.Tag(el).add_class(t)
        S.check_match(str(d), tag_pat(el, [("class", p)]), "add_class value")
        return
    elif w == "add_style":
        d = ht.Tag(el).add_style(t + ";")
        S.check_match(str(d), tag_pat(el, [("style", pat.attr(t + ";"))]), "add_style value")
        return
    elif w == "doc-attr":
        out = ht.HTMLDocument("q", x=t).render()["html"]
        S.observe(out)
        S.check_match(out, pat.seq('<!DOCTYPE html>\n<html x="') + p + ('">\n',) + pat.anything(),
                      "attribute of the document element")
        return
    elif w == "doc-user-html":
        h = ht.Tag("html", ht.Tag("body", "q"), y=t)
        out = ht.HTMLDocument(h, x=t).render()["html"]
        S.observe(out)
        S.check_match(out, pat.seq('<!DOCTYPE html>\n<html y="') + p + ('" x="',) + p + ('">\n',)
                      + pat.anything(), "attribute of the user's document element")
        return
    elif w == "render":
        d = ht.Tag("p", ht.Tag("b", x=t, _add_ws=False))
        out = d.render()["html"]
        S.observe(out)
        S.check_match(out, pat.seq("<p>\n  ") + tag_pat("b", [("x", p)]) + ("\n</p>",),
                      "nested attribute")
        return
    elif w == "list":
        out = str(ht.TagList("q", ht.Tag("b", x=t, _add_ws=False)))
        S.check_match(out, pat.seq("q") + tag_pat("b", [("x", p)]), "attribute in a list")
        return
    elif w == "nested":
        d = ht.Tag("img", x=t, _add_ws=False)
        for i in range(sh.get("depth", 9)):
            d = ht.Tag("div", d, x=t, _add_ws=False)
        q = tag_pat("img", [("x", p)], True)
        for i in range(sh.get("depth", 9)):
            q = pat.seq('<div x="') + p + ('">',) + q + ("</div>",)
        S.check_match(str(d), q, "deeply nested attributes")
        return
    elif w == "dep-script":
        d = ht.HTMLDependency("n", "1.0", source={"href": "h"}, script={"src": "s.js", "x": t})
        out = d.as_html_tags().get_html_string()
        S.observe(out)
        S.check_match(out, pat.seq('<script src="h/s.js" x="') + p + ('"></script>',),
                      "attribute of a dependency script")
        return
    elif w == "dep-meta":
        d = ht.HTMLDependency("n", "1.0", meta={"name": "m", "content": t})
        out = d.as_html_tags().get_html_string()
        S.check_match(out, pat.seq('<meta name="m" content="') + p + ('"/>',),
                      "attribute of a dependency meta tag")
        return
    void = el in C.VOID
    q = tag_pat(el, [("x", p)], void)
    k = S.int("indent", 0, 40)
    out = d.get_html_string(k)
    S.observe(out)
    S.check_match(out, C.spaces(k) + q, "attribute via " + w)
    S.check_match(str(d), q, "str(): attribute via " + w)


def merge(S, w, ks, n):
    """Several values for one attribute, in order."""
    ht = S.ht
    vals, pats = [], []
    for i, k in enumerate(ks):
        if k == "p":
            t = S.str("v%d" % i, n if len(ks) < 4 else 1)
            cover(S, t)
            if "style" in w:
                t = t + ";"
            vals.append(t)
            pats.append(pat.attr(t))
        elif k == "h":
            t = S.str("v%d" % i, n if len(ks) < 4 else 1)
            if "style" in w:
                t = t + ";"
            vals.append(ht.HTML(t))
            pats.append(pat.lit(t))
        elif k == "n":
            v = S.int("v%d" % i, -999, 999)
            vals.append(v)
            pats.append(pat.lit(str(v)))
        elif k == "t":
            vals.append(True)
            pats.append(())
        elif k == "x":
            vals.append(None)
            pats.append(None)
    nm = "class" if "class" in w else "style" if "style" in w else "x"
    if w == "kw+dict":
        d = ht.Tag("div", *[{"x": v} for v in vals[:-1]], x=vals[-1])
    elif w == "dict+dict":
        d = ht.Tag("div", *[{"x": v} for v in vals])
    elif w == "consolidate":
        a, _ = ht.consolidate_attrs(*[{"x": v} for v in vals])
        d = ht.Tag("div", a)
    elif w == "update":
        d = ht.Tag("div")
        d.attrs.update(*[{"x": v} for v in vals])
    else:
        d = ht.Tag("div", {nm: vals[0]})
        order = [0]
        for i, v in enumerate(vals[1:], 1):
            if not isinstance(v, (str, ht.HTML)):
                return
            if nm == "class":
                d.add_class(v, prepend=w.endswith("_pre"))
            else:
                d.add_style(v, prepend=w.endswith("_pre"))
            order = [i] + order if w.endswith("_pre") else order + [i]
        pats = [pats[i] for i in order]
    pats = [p for p in pats if p is not None]
    p = ()
    for i, q in enumerate(pats):
        p += ((" ",) if i else ()) + q
    exp = [(nm, p)] if pats else []
    out = d.get_html_string()
    S.observe(out)
    S.check_match(out, tag_pat("div", exp), "merged values of one attribute")
