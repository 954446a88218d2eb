"""C16  Class/style helpers and css() act as token-set and declaration algebra."""
import itertools

from symx import pat
from symx import expr as X
from props import common as C
from props.c15 import loose_attr

ENCODED = ["Tag.add_class", "Tag.remove_class", "Tag.has_class", "Tag.add_style", "css",
           "TagAttrDict.*", "HTML.*"]
BOUNDS = {
    "quick": "initial class/style values: every string of up to 4 characters over letters, "
             "markup characters and whitespace (absent, plain or HTML()); every history of up to "
             "3 operations with tokens of 1..2 symbolic characters (any non-whitespace scalar "
             "value for single operations) in both prepend settings; class lists of 14 tokens; "
             "css(): up to 4 arguments, names of up to 4 characters, values of every kind"
             "; HTML() tokens, class lists and css() calls of 130 entries, bools, -0.0 and "
             "infinities, any collapse separator",
    "thorough": "histories of 4 operations, initial values of up to 6 characters",
}
COVER = ["present", "absent", "accepted", "rejected"]
WSCH = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006" \
       "\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
NOWS = X.cs_and(X.UNICODE, X.cs_not(X.cs_of(WSCH)))
TOK = C.X.cs_of("ab-&")
INI = C.X.cs_of("ab& \n")
OPS = ("add", "addp", "rm", "has")


def shapes(tier):
    out = []
    big = tier == "thorough"
    for ini in ("none", "plain", "html"):
        for op in ("add", "addp", "rm", "rmw", "has"):
            out.append(dict(kind="one", ini=ini, op=op))
        for n in (2, 3) + ((4,) if big else ()):
            for ops in itertools.product(("add", "addp", "rm"), repeat=n):
                out.append(dict(kind="hist", ini=ini, ops=list(ops)))
    out += [dict(kind="any", ini=i) for i in ("none", "plain")]
    out += [dict(kind="wide", op=o, n=n) for o in ("add", "addp", "rm", "has") for n in (14, 130)]
    for ini in ("none", "plain", "html"):
        for sk in ("plain", "html"):
            for pre in (False, True):
                out.append(dict(kind="style", ini=ini, sk=sk, pre=pre))
    out += [dict(kind="stylehist"), dict(kind="longstyle"), dict(kind="mixed"), dict(kind="ret"), dict(kind="htmltok"),
            dict(kind="sub")]
    for n in (1, 2, 3, 4):
        out.append(dict(kind="css", n=n))
    for n in (1, 2, 3):
        out.append(dict(kind="cssval", n=n))
    out += [dict(kind="cssname"), dict(kind="csssep"), dict(kind="cssadd"), dict(kind="cssmany", n=14), dict(kind="cssmany", n=130)]
    return out


def toks(ht, d):
    """Whitespace tokens of the current class value."""
    v = d.attrs.get("class")
    if v is None:
        return None
    if isinstance(v, ht.HTML):
        v = v.as_string()
    return v.split()


def same_tokens(S, got, exp, label, html=False):
    S.check(len(got) == len(exp), label + ": number of tokens")
    if len(got) != len(exp):
        return
    for a, (b, plain) in zip(got, exp):
        if html and plain:
            S.check_match(a, loose_attr(b), label + ": token")
        else:
            S.check_eq(a, b, label + ": token")


def start(S, ini, n=3):
    ht = S.ht
    if ini == "none":
        return ht.Tag("div", id="i"), [], False
    v = S.str("ini", n, 0, cs=INI)
    d = ht.Tag("div", {"id": "i"}, {"class": ht.HTML(v) if ini == "html" else v})
    return d, [(x, ini != "html") for x in v.split()], ini == "html"


def apply(S, d, model, html, op, t, label="class"):
    """Run one operation and update the token model (list of (token, is plain text))."""
    ht = S.ht
    was_html = isinstance(d.attrs.get("class"), ht.HTML)
    if op in ("add", "addp"):
        r = d.add_class(t, prepend=(op == "addp"))
        model = [(t, True)] + model if op == "addp" else model + [(t, True)]
        S.check(d.has_class(t), "has_class is true after add_class")
    elif op in ("rm", "rmw"):
        arg = "\t " + t + " \n" if op == "rmw" else t
        had = "class" in d.attrs
        r = d.remove_class(arg)
        hit = [i for i, (x, _) in enumerate(model) if bool(x == t)]
        S.covers("present" if hit else "absent")
        model = [m for i, m in enumerate(model) if i not in hit]
        S.check(not d.has_class(t), "has_class is false after remove_class")
        if hit and not model:
            S.check("class" not in d.attrs, "attribute dropped when no token remains")
    else:
        r = d
        S.check(d.has_class(t) == any(bool(x == t) for x, _ in model), "has_class is membership")
    S.check(r is d, op + " returns the tag itself")
    got = toks(ht, d)
    if got is None:
        S.check(not model, "class attribute present while tokens remain")
        got = []
    v = d.attrs.get("class")
    if v is not None:
        S.check(isinstance(v, ht.HTML) == was_html,
                label + " after " + op + ": value stays plain or HTML() as it was")
    same_tokens(S, got, model, label + " after " + op, isinstance(v, ht.HTML))
    return model


def run(S, sh):
    ht = S.ht
    k = sh["kind"]
    if k == "one":
        d, model, html = start(S, sh["ini"], 4 if S.tier == "quick" else 6)
        t = S.str("t", 2, 1, cs=C.X.cs_of("ab-") if html else TOK)
        model = apply(S, d, model, html, sh["op"], t)
        S.check_eq(d.attrs["id"], "i", "other attributes untouched")
        u = S.str("u", 1, 1, cs=C.X.cs_of("ab-") if html else TOK)
        S.check(d.has_class(u) == any(bool(x == u) for x, _ in model), "has_class is membership")
        S.observe(str(d))
    elif k == "hist":
        n = len(sh["ops"])
        d, model, html = start(S, sh["ini"], 3 if n < 3 else 2)
        for i, op in enumerate(sh["ops"]):
            t = S.str("t%d" % i, 2 if n < 3 else 1, 1, cs=C.X.cs_of("ab") if html else
                      C.X.cs_of("ab&"))
            model = apply(S, d, model, html, op, t)
        S.observe(str(d))
    elif k == "any":
        # any non-whitespace scalar values
        t = S.str("t", 2, 1, cs=NOWS)
        u = S.str("u", 1, 1, cs=NOWS)
        d = ht.Tag("div") if sh["ini"] == "none" else ht.Tag("div", class_="x y")
        model = [] if sh["ini"] == "none" else [("x", True), ("y", True)]
        model = apply(S, d, model, False, "add", t)
        model = apply(S, d, model, False, "addp", u)
        model = apply(S, d, model, False, "has", u)
        model = apply(S, d, model, False, "rm", t)
        model = apply(S, d, model, False, "rmw", u)
    elif k == "wide":
        at = C.spot(S, sh["n"])
        t = S.str("t", 3, 1, cs=TOK)
        base = ["a%d" % i if i % 3 else "ab" for i in range(sh["n"])]
        base[at] = t
        d = ht.Tag("div", class_=_join(base))
        apply(S, d, [(x, True) for x in base], False, sh["op"], S.pick("q", ["ab", "a1", t, "zz"]))
    elif k in ("style", "longstyle"):
        if k == "longstyle":
            sh = dict(ini="plain", sk="plain", pre=S.flag("pre"))
        d = ht.Tag("p", id="i")
        ini = None
        if sh["ini"] != "none":
            ini = S.str("ini", 4)
            d = ht.Tag("p", {"id": "i", "style": ht.HTML(ini) if sh["ini"] == "html" else ini})
        s = S.str("s", 3) if k == "style" else \
            S.str("a", 1, 1) + S.rep("n", "x", 0, 5000) + S.str("b", 1, 1)
        good = bool(s.endswith(";"))
        arg = ht.HTML(s) if sh["sk"] == "html" else s
        before = d.attrs.get("style")
        r, exc = S.attempt(d.add_style, arg, prepend=sh["pre"])
        S.covers("accepted" if good else "rejected")
        S.check((exc is None) == good, "add_style accepts exactly what ends in a semicolon")
        if exc is not None:
            S.check(d.attrs.get("style") is before and list(d.attrs) ==
                    (["id", "style"] if ini is not None else ["id"]),
                    "a rejected declaration leaves the tag alone")
            return
        if not good:
            return
        S.check(r is d, "add_style returns the tag itself")
        v = d.attrs["style"]
        mixed = isinstance(v, ht.HTML)
        S.check(mixed == ("html" in (sh["ini"], sh["sk"])), "style value type")
        parts = [(ini, sh["ini"]), (s, sh["sk"])] if ini is not None else [(s, sh["sk"])]
        if sh["pre"]:
            parts.reverse()
        p = ()
        for i, (x, kind) in enumerate(parts):
            p += ((" ",) if i else ()) + (loose_attr(x) if mixed and kind == "plain" else
                                          pat.lit(x))
        text = v.as_string() if mixed else v
        S.observe(text)
        S.check_match(text, p, "style value")
    elif k == "stylehist":
        d = ht.Tag("p")
        exp = []
        for i in range(3):
            s = S.str("s%d" % i, 2, 1, cs=C.X.cs_of("a;& "))
            pre = S.flag("p%d" % i)
            good = bool(s.endswith(";"))
            r, exc = S.attempt(d.add_style, s, prepend=pre)
            S.check((exc is None) == good, "add_style accepts exactly what ends in a semicolon")
            if exc is None:
                exp = [s] + exp if pre else exp + [s]
            S.check(("style" in d.attrs) == bool(exp), "style attribute present")
            if exp and "style" in d.attrs:
                S.check_eq(d.attrs["style"], _join(exp),
                           "style value")
    elif k == "mixed":
        # class values marked HTML(): tokens with markup characters
        t = S.str("t", 2, 1, cs=C.X.cs_of("a&<\"'"))
        d = ht.Tag("div", {"class": ht.HTML("x&amp;y b")})
        pre = S.flag("pre")
        d.add_class(t, prepend=pre)
        S.check(d.has_class(t), "has_class is true after add_class (HTML() value)")
        S.check(d.has_class("b"), "other tokens stay (HTML() value)")
        out = str(d)
        raw = ("x&amp;y b",)
        p = pat.attr(t) + (" ",) + raw if pre else raw + (" ",) + pat.attr(t)
        S.check_match(out, pat.seq('<div class="') + p + ('"></div>',), "class value (HTML() value)")
        d.remove_class("b")
        S.check(d.has_class(t), "other tokens stay after remove_class (HTML() value)")
        raw = ("x&amp;y",)
        p = pat.attr(t) + (" ",) + raw if pre else raw + (" ",) + pat.attr(t)
        S.check_match(str(d), pat.seq('<div class="') + p + ('"></div>',),
                      "remove_class keeps the other tokens (HTML() value)")
        d.remove_class(t)
        S.check(not d.has_class(t), "remove_class of a token with markup characters")
        S.check_match(str(d), pat.seq('<div class="x&amp;y"></div>'), "tokens kept (HTML() value)")
    elif k == "htmltok":
        # tokens that look like character references: has_class and remove_class are about
        # exactly that token of an HTML() value (named by HTML()) or of a plain value
        h = S.flag("h")
        W = ht.HTML if h else (lambda x: x)
        toks_ = [S.str("t%d" % i, 5, 1, cs=C.X.cs_of("a&mp;")) for i in range(2)] + ["b"]
        d = ht.Tag("div", {"class": W(_join(toks_))})
        t = S.str("t", 5, 1, cs=C.X.cs_of("a&mp;"))
        S.check(d.has_class(W(t)) == any(bool(x == t) for x in toks_),
                "has_class of a token like a character reference")
        d.remove_class(W(t))
        left = [x for x in toks_ if not bool(x == t)]
        S.check(not d.has_class(W(t)), "has_class is false after remove_class")
        text = _join(left)
        S.check_match(str(d), pat.seq('<div class="') + (pat.lit(text) if h else pat.attr(text))
                      + ('"></div>',), "remove_class of a token like a character reference")
    elif k == "ret":
        t = S.str("t", 1, 1, cs=TOK)
        for d in (ht.Tag("p"), ht.Tag("p", class_="a"), ht.Tag("p", class_=t)):
            S.check(d.remove_class(t) is d, "remove_class returns the tag")
            S.check(d.add_class(t) is d, "add_class returns the tag")
            S.check(d.add_class(t, prepend=True) is d, "add_class returns the tag")
            S.check(d.add_style(t + ";") is d, "add_style returns the tag")
            S.check(d.remove_class("zz") is d and d.remove_class("") is d, "remove_class returns the tag")
    elif k == "sub":
        # tokens that are parts of one another
        a = S.str("a", 2, 1, cs=C.X.cs_of("ab-"))
        b = S.str("b", 2, 1, cs=C.X.cs_of("ab-"))
        d = ht.Tag("div", class_="pre-" + a)
        model = [("pre-" + a, True)]
        for t in (a + b, b, a):
            model = apply(S, d, model, False, "add", t)
        for t in (a, a + b, b):
            model = apply(S, d, model, False, "rm", t)
        S.check(d.has_class("pre-" + a), "longer token kept")
    elif k.startswith("css"):
        css(S, sh)


NAME = C.X.cs_of("abAZz_")


def refname(S, n):
    """Hyphenated lower case."""
    return n


def name_pat(n):
    """Pattern of the CSS name for the keyword n."""
    from symx import strs
    out = ()
    for t in strs.toks_of(n):
        if type(t) is str:
            for c in t:
                out += ("-",) if c == "_" else ("-" + c.lower(),) if "A" <= c <= "Z" else (c,)
        elif type(t) is strs.Ch:
            alts = [(X.Eq(t.e, ord("_")), ("-",))]
            for o in range(65, 91):
                alts.append((X.Eq(t.e, o), ("-" + chr(o + 32),)))
            alts.append((X.Not(X.In(t.e, ((65, 90), (95, 95)))), (t,)))
            out += (strs.talt([a for a in alts if a[0] is not False]),)
        else:
            out += strs.tit(t.c, name_pat(strs.mk(t.a)), name_pat(strs.mk(t.b)))
    return out


def css(S, sh):
    ht = S.ht
    k = sh["kind"]
    if k == "cssname":
        n = S.str("n", 4 if S.tier == "quick" else 5, 1, cs=C.X.cs_of("abcxyzABCXYZ_019-"), first=C.X.cs_of("abAZ_"))
        S.assume(n != "collapse_")
        v = S.str("v", 1)
        out = ht.css(**{n: v})
        S.observe(out)
        S.check_match(out, name_pat(n) + pat.seq(":", v, ";"), "css() name")
        return
    if k == "css":
        n = sh["n"]
        ns = ["a", "b_c", "dE", "f"][:n]
        none = [S.flag("none%d" % i) for i in range(n)]
        vs = [None if z else S.str("v%d" % i, 2) for i, z in enumerate(none)]
        out = ht.css(**dict(zip(ns, vs)))
        S.observe(out)
        p = ()
        for a, b, v in zip(ns, ["a", "b-c", "d-e", "f"], vs):
            if v is not None:
                p += pat.seq(b, ":", v, ";")
        if not p:
            S.check(out is None, "css() returns None when nothing remains")
        else:
            S.check_match(out, p, "css() declarations in order")
        d = ht.Tag("p")
        r, exc = S.attempt(d.add_style, out)
        S.check(exc is None, "css() output is accepted by add_style")
        return
    if k == "cssval":
        p, kw = (), {}
        for i in range(sh["n"]):
            w = S.pick("w%d" % i, ["s", "i", "f", "l", "", "0", "None", "h", "b", "e", "[]"])
            v = {"s": lambda: S.str("v%d" % i, 2), "i": lambda: S.int("i%d" % i, -9999, 9999),
                 "f": lambda: 1.5, "l": lambda: [S.str("l%d" % i, 1), "q", S.str("m%d" % i, 1)],
                 "b": lambda: bool(i % 2), "e": lambda: [0.0, -0.0, float("inf"), "None"][i % 4],
                 "": lambda: "", "0": lambda: 0, "None": lambda: None,
                 "h": lambda: ht.HTML("<"), "[]": lambda: [[], [""], ["z"]][i % 3]}[w]()
            kw["k%d" % i] = v
            if v is not None:
                p += pat.seq("k%d:" % i, _join(v) if isinstance(v, list) else
                             v if isinstance(v, str) else str(v), ";")
        out = ht.css(**kw)
        if not kw or all(v is None for v in kw.values()):
            S.check(out is None, "css() returns None when nothing remains")
        else:
            S.check_match(out, p, "css() values")
            S.observe(out)
    elif k == "csssep":
        sep = S.str("sep", 2)
        a, b = S.str("a", 1), S.str("b", 1)
        out = ht.css(collapse_=sep, x_y=a, z=None, wV=b)
        S.observe(out)
        S.check_match(out, pat.seq("x-y:", a, ";", sep, "w-v:", b, ";")
                      + pat.alt(pat.lit(sep), ()), "css() with a separator")
        S.check(ht.css(sep) is None and ht.css(sep, a=None) is None, "css() of nothing")
    elif k == "cssadd":
        v = S.str("v", 3)
        n = S.str("n", 3, 1, cs=NAME)
        out = ht.css(**{n: v})
        d = ht.Tag("p", style="x:y;")
        r, exc = S.attempt(d.add_style, out, prepend=S.flag("pre"))
        S.check(exc is None and r is d, "css() output is accepted by add_style")
        S.check(ht.css() is None, "css() of nothing is None")
        _, exc = S.attempt(d.add_style, ht.css(a=None))
        S.check(exc is None, "css() output is accepted by add_style")
    elif k == "cssmany":
        at = C.spot(S, sh["n"])
        v = S.str("v", 1)
        w = S.pick("w", ["v", "None"])
        kw = {"p%d_q" % i: (v if w == "v" else None) if i == at else i for i in range(sh["n"])}
        out = ht.css(**kw)
        p = ()
        for i in range(sh["n"]):
            if i == at and w == "None":
                continue
            p += pat.seq("p%d-q:" % i, v if i == at else str(i), ";")
        S.check_match(out, p, "css() with many arguments")


def _join(v):
    from symx import strs
    return strs.join(" ", v) if any(strs.is_sym(x) for x in v) else " ".join(v)
