"""C04  Trusted markup is emitted verbatim and escaping happens exactly once."""
import itertools
import operator

from symx import pat
from props import common as C

ENCODED = ["HTML.*", "collections.UserString.*", "_normalize_text", "html_escape",
           "Tag.get_html_string", "TagList.get_html_string", "TagAttrDict.*", "Tag.render",
           "HTMLDocument.render", "HTMLDependency.as_html_tags", "wrap_displayhook_handler"]
BOUNDS = {
    "quick": "markup of up to 16 symbolic characters (9 as an HTML() attribute value), runs of length 0..6000; every sequence of "
             "up to 4 operands of {str, HTML, number, object} with at least one HTML in every "
             "grouping, + and +=, 1..2 symbolic characters per operand; the listed positions "
             "and rendering paths"
             "; every catalogue element around the markup; long chains of + and +=; HTML "
             "subclasses; markup in dependency heads, _repr_html_ results and with-blocks",
    "thorough": "as quick with 5 operands and 40 characters",
}
COVER = ["verbatim", "concat"]

POS = ("only", "first", "mid", "last", "aftertext", "beforetext", "afterhtml", "meta", "inline")
PATHS = ("inline", "get", "str", "render", "list", "doc", "deep", "repr", "_repr_html_")


def shapes(tier):
    out = []
    for k in ("h", "r", "script", "style", "scripth", "x"):
        for p in POS:
            for path in PATHS:
                if p not in ("only", "mid") and path not in ("get", "list", "inline"):
                    continue
                out.append(dict(kind="child", k=k, p=p, path=path))
    for ch in "a&<>\"\n":
        for k in ("h", "r", "script"):
            out.append(dict(kind="long", k=k, ch=ch))
    for n in (2, 3, 4) + ((5,) if tier == "thorough" else ()):
        for ks in itertools.product("sh", repeat=n):
            if "h" in ks:
                out.append(dict(kind="cat", ks="".join(ks)))
    for ks in ("hi", "ih", "hf", "fh", "ho", "oh", "shi", "his", "ohs", "hoh", "sho", "hss", "hN",
               "Nh", "hb", "hShs", "Sh", "hS", "hg", "gh", "hsg"):
        out.append(dict(kind="cat", ks=ks))
    out.append(dict(kind="attr"))
    out.append(dict(kind="attrpos"))
    out.append(dict(kind="dephead"))
    out.append(dict(kind="chain"))
    out.append(dict(kind="entity"))
    out.append(dict(kind="acc"))
    out.append(dict(kind="reprhtml"))
    out.append(dict(kind="name"))
    out.append(dict(kind="with"))
    out.append(dict(kind="ctor"))
    return out


def run(S, sh):
    ht = S.ht
    k = sh["kind"]
    big = S.tier != "quick"
    if k in ("child", "long"):
        if k == "long":
            t = S.str("a", 1, 1) + S.rep("n", sh["ch"], 0, 6000) + S.str("b", 1, 1)
            sh = dict(sh, p="mid", path="get")
        else:
            t = S.str("m", 40 if big else 16)
        S.covers("verbatim")
        child(S, sh, t)
    elif k == "cat":
        S.covers("concat")
        concat(S, sh["ks"])
    elif k == "attr":
        t = S.str("m", 9)
        d = ht.Tag("div", {"x": ht.HTML(t)}, y=ht.HTML(t))
        d.attrs["z"] = ht.HTML(t)
        d.attrs.update(w=ht.HTML(t))
        out = d.get_html_string()
        S.observe(out)
        S.check_match(out, pat.seq('<div x="', t, '" y="', t, '" z="', t, '" w="', t, '"></div>'),
                      "HTML() attribute value verbatim")
    elif k == "attrpos":
        t = S.str("m", 2)
        nm = S.str("an", 8, 1, cs=C.X.cs_of("abcdefghijklmnopqrstuvwxyz-"),
                   first=C.X.cs_of("abcdefghijklmnopqrstuvwxyz"))
        el = S.pick("el", ["div", "br", "script", "a"])
        S.check_match(str(ht.Tag(el, {nm: ht.HTML(t)})), pat.seq("<", el, " ", nm, '="', t, '"')
                      + (("/>",) if el == "br" else pat.seq("></", el, ">")), "HTML() attribute")
        n = 9 if S.flag("few") else 120
        at = C.spot(S, n)
        vals = [ht.HTML(t) if i == at else "q&" for i in range(n)]
        out = str(ht.Tag("img", {"a%d" % i: v for i, v in enumerate(vals)}))
        p = pat.seq("<img")
        for i in range(n):
            p += pat.seq(' a%d="' % i) + (pat.lit(t) if i == at else pat.attr("q&")) + ('"',)
        S.check_match(out, p + ("/>",), "HTML() attribute among others")
        # several HTML() values of one attribute stay verbatim
        u = S.str("u", 2)
        out = str(ht.Tag("div", {"k": ht.HTML(t)}, k=ht.HTML(u)))
        S.check_match(out, pat.seq('<div k="', t, " ", u, '"></div>'), "merged HTML() values")
    elif k == "dephead":
        t = S.str("m", 4)
        d = ht.HTMLDependency("n", "1", head=t)
        out = ht.HTMLDocument(ht.Tag("p"), d).render()["html"]
        S.observe(out)
        S.check_match(out, pat.anything() + pat.seq("</script>\n    ", t, "\n  </head>")
                      + pat.anything(), "dependency head markup verbatim")
        d = ht.HTMLDependency("n", "1", head=ht.Tag("x", ht.HTML(t)))
        out = d.as_html_tags().get_html_string()
        S.check_match(out, pat.seq("<x>", t, "</x>"), "dependency head tag")
    elif k == "chain":
        # accumulation over many steps
        t = S.str("p", 1)
        m = S.str("m", 1)
        h = ht.HTML(m)
        e = pat.lit(m)
        for i in range(60):
            if i % 3 == 0:
                h = h + t
                e = e + pat.enc(t)
            elif i % 3 == 1:
                h = t + h
                e = pat.enc(t) + e
            else:
                h += ht.HTML(m)
                e = e + pat.lit(m)
        S.check(isinstance(h, ht.HTML), "concatenation yields HTML()")
        S.check_match(str(ht.TagList(h)), e, "long chain of concatenations")
    elif k == "entity":
        m = S.pick("e", ["&amp;", "&amp", "&lt;p&gt;", "&#38;", "&#x26;amp;", "<!-- & -->", "&&amp;&",
                         "<a href=\"?a=1&b=2\">", "</script>", "\r\n", "&nbsp;", "]]>"])
        t = S.str("t", 1)
        s = m + t
        out = str(ht.TagList(ht.HTML(s), C.ReprObj(s), s))
        S.check_match(out, pat.seq(s, s) + pat.enc(s), "existing entities untouched")
        h = ht.HTML(s) + s
        S.check_match(str(ht.Tag("b", h)), pat.seq("<b>", s) + pat.enc(s) + ("</b>",),
                      "existing entities in a concatenation")
        S.check_match(str(ht.Tag("b", s + ht.HTML(s) + h)), pat.seq("<b>") + pat.enc(s) +
                      pat.seq(s, s) + pat.enc(s) + ("</b>",),
                      "existing entities in a concatenation")
    elif k == "acc":
        # operands are not changed by concatenation, results can be reused
        t, m = S.str("t", 1, 1), S.str("m", 1, 1)
        a = ht.HTML(m)
        b = a + t
        c = a + t + a
        b2 = t + b
        S.check_match(str(ht.TagList(a)), pat.lit(m), "left operand unchanged")
        S.check_match(str(ht.TagList(b)), pat.lit(m) + pat.enc(t), "reuse")
        S.check_match(str(ht.TagList(c)), pat.lit(m) + pat.enc(t) + pat.lit(m), "reuse")
        S.check_match(str(ht.TagList(b2)), pat.enc(t) + pat.lit(m) + pat.enc(t), "reuse")
        x = a
        x += t
        S.check_match(str(ht.TagList(a)), pat.lit(m), "+= leaves the old object alone")
        S.check_match(str(ht.TagList(x)), pat.lit(m) + pat.enc(t), "+=")
    elif k == "reprhtml":
        # _repr_html_ may itself return HTML()
        m, t = S.str("m", 3), S.str("t", 1, 1)
        o = C.ReprObj(ht.HTML(m))
        out = str(ht.Tag("b", t, o, t, _add_ws=False))
        S.check_match(out, pat.seq("<b>") + pat.enc(t) + pat.lit(m) + pat.enc(t) + ("</b>",),
                      "_repr_html_ returning HTML()")
    elif k == "name":
        nm = S.str("tag", 9, 1, cs=C.X.cs_of("abcdefghijklmnopqrstuvwxyz-"),
                   first=C.X.cs_of("abcdefghijklmnopqrstuvwxyz"))
        m = S.str("m", 2)
        out = str(ht.Tag(nm, ht.HTML(m)))
        S.check_match(out, pat.seq("<", nm, ">", m, "</", nm, ">"), "HTML() in any element")
        out = str(ht.Tag(nm, ht.HTML(m), C.ReprObj(m), ht.HTML(m), _add_ws=False))
        S.check_match(out, pat.seq("<", nm, ">", m, m, m, "</", nm, ">"), "HTML() in any element")
    elif k == "with":
        import sys
        m = S.str("m", 3)
        d = ht.Tag("div")
        sys.displayhook = lambda x: None
        with d:
            sys.displayhook(C.ReprObj(m))
            sys.displayhook(ht.HTML(m))
        S.check_match(str(d), pat.seq("<div>\n  ", m, m, "\n</div>"),
                      "displayed _repr_html_ object verbatim")
    elif k == "ctor":
        m = S.str("m", 3)
        S.check_match(str(ht.TagList(ht.HTML(ht.HTML(m)))), pat.lit(m), "HTML(HTML(x))")
        v = S.int("v", -9999, 9999)
        S.check_match(str(ht.TagList(ht.HTML(v))), pat.lit(str(v)), "HTML(number)")
        S.check_eq(str(ht.HTML(m)), m, "str(HTML(x))")
        S.check_eq(ht.HTML(m)._repr_html_(), m, "HTML(x)._repr_html_()")
        S.check_eq(ht.HTML(m).as_string(), m, "HTML(x).as_string()")


def child(S, sh, t):
    ht = S.ht
    kk = sh["k"]
    raw = kk in ("script", "style", "scripth")
    if kk in ("h", "scripth"):
        x = C.H(t)
    elif kk == "r":
        x = C.R(t)
    elif kk == "x":
        x = C.H(t)
    else:
        x = C.T(t)
    p = sh["p"]
    other = C.El("i", ws=False) if not raw else C.T("a<&b")
    blk = C.El("p") if not raw else C.T("if(a<b)&&c>d")
    if sh["path"] == "inline" and not raw:
        blk = C.El("u", C.T("z"), ws=False)
    kids = {
        "only": [x], "first": [x, blk], "mid": [blk, x, blk], "last": [blk, x],
        "aftertext": [C.T("u&"), x], "beforetext": [x, C.T("<v")], "afterhtml": [C.H("<i>&"), x],
        "meta": [C.M(), x, C.M()], "inline": [other, x, other],
    }[p]
    name = {"script": "script", "style": "style", "scripth": "script"}.get(kk, "div")
    path = sh["path"]
    spec = C.El(name, *kids, raw=raw)

    def build(n):
        if n is x and kk == "x":
            # an expansion producing HTML()
            return C.Expander(lambda: ht.HTML(t))
        return C.build(S, n)
    top = ht.Tag(name, *[build(c) for c in kids])
    if kk == "x" and path == "get":
        top = top.tagify()
    if path == "inline":
        top = ht.Tag(name, *[build(c) for c in kids], _add_ws=False)
        spec = C.El(name, *kids, raw=raw, ws=False)
        out, exp = str(top), C.inline(spec)
    elif path == "get":
        k = S.int("indent", 0, 40)
        eol = S.pick("eol", ["\n", "", "\r\n"])
        out = top.get_html_string(k, eol)
        exp = C.block(spec, k, eol)
    elif path == "str":
        out, exp = str(top), C.block(spec, 0, "\n")
    elif path == "repr":
        out, exp = repr(top), C.block(spec, 0, "\n")
    elif path == "_repr_html_":
        out, exp = top._repr_html_(), C.block(spec, 0, "\n")
    elif path == "render":
        out, exp = top.render()["html"], C.block(spec, 0, "\n")
    elif path == "list":
        tl = ht.TagList(*[build(c) for c in kids], top, "z")
        out = str(tl)
        if raw:
            kids = [c if c.kind != "t" else C.T(c.s) for c in kids]
        exp = C.lines(kids + [spec, C.T("z")], 0, "\n")
    elif path == "doc":
        out = ht.HTMLDocument(top).render()["html"]
        exp = pat.seq("<!DOCTYPE html>\n<html>\n  <head>\n    <meta charset=\"utf-8\"/>\n  </head>\n"
                      "  <body>\n") + C.block(spec, 2, "\n") + pat.seq("\n  </body>\n</html>")
    elif path == "deep":
        for i in range(9 if len(spec.kids) > 1 else 45):
            top = ht.Tag("ul", top, "q")
            spec = C.El("ul", spec, C.T("q"))
        out, exp = str(top), C.block(spec, 0, "\n")
    S.observe(out)
    S.check_match(out, exp, {"h": "HTML() child", "r": "_repr_html_ child",
                             "x": "HTML() from an expansion"}.get(kk, name + " text") + " verbatim")


class Obj:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def concat(S, ks):
    ht = S.ht
    ops, pats = [], []
    childable = True
    for i, k in enumerate(ks):
        s = S.str("o%d" % i, 2 if len(ks) < 4 else 1)
        if k == "s":
            ops.append(s)
            pats.append(pat.enc(s))
        elif k == "h":
            ops.append(ht.HTML(s))
            pats.append(pat.lit(s))
        elif k == "S":
            ops.append(C.Str2("<&x"))
            pats.append(pat.enc("<&x"))
        elif k == "i":
            v = S.int("i%d" % i, -999, 999)
            ops.append(v)
            pats.append(pat.lit(str(v)))
        elif k == "f":
            ops.append(2.5)
            pats.append(("2.5",))
        elif k == "b":
            ops.append(True)
            pats.append(("True",))
            childable = False
        elif k == "N":
            ops.append(None)
            pats.append(("None",))
            childable = False
        elif k == "o":
            ops.append(Obj(s))
            pats.append(pat.enc(s))
            childable = False
        elif k == "g":
            ops.append(ht.Tag("b", s))
            pats.append(pat.enc("<b>") + esc2(S, s) + pat.enc("</b>"))
            childable = False
    f = operator.iadd if S.choice("iadd", 2) else operator.add

    def group(lo, hi):
        """Any parenthesisation of ops[lo:hi]."""
        if hi - lo == 1:
            return ops[lo]
        m = lo + 1 + S.choice("m%d-%d" % (lo, hi), hi - lo - 1)
        return f(group(lo, m), group(m, hi))
    try:
        res = group(0, len(ops))
    except TypeError:
        # str + number and the like are not HTML's business
        if all(k in "sh" for k in ks):
            raise
        return
    S.check(isinstance(res, ht.HTML), "concatenation yields HTML()")
    if not isinstance(res, ht.HTML):
        return
    p = ()
    for q in pats:
        p += q
    out = str(ht.TagList(res))
    S.observe(out)
    if "g" not in ks:
        S.check_match(out, p, "concatenation escapes each plain operand once")
    S.check_match(str(ht.Tag("b", res)), pat.seq("<b>") + p + ("</b>",),
                  "concatenation as a child") if "g" not in ks else None
    if childable:
        S.check_eq(str(ht.Tag("b", *ops, _add_ws=False)), str(ht.Tag("b", res, _add_ws=False)),
                   "concatenation equals adjacent children")


def esc2(S, s):
    return pat.anything()
