"""Specification trees and the oracles shared by several properties.

A spec node is a small tuple built next to the real object; the oracles below compute what
the property text promises from the spec alone.
"""
from __future__ import annotations

import itertools

from symx import expr as X
from symx import pat
from symx import strs
from symx.strs import trep, toks_of

VOID = ("area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen",
        "link", "meta", "param", "source", "track", "wbr")


class Node:
    """One spec node.  kind: el, list, t (text), n (number), h (HTML), r (_repr_html_),
    m (metadata), d (dependency), x (tagifiable)."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


def El(name, *kids, ws=True, attrs=(), void=None, raw=False):
    return Node("el", name=name, kids=list(kids), ws=ws, attrs=list(attrs),
                void=(name in VOID) if void is None else void, raw=raw)


def L(*kids):
    return Node("list", kids=list(kids))


def T(s):
    return Node("t", s=s)


def N(v):
    return Node("n", v=v, s=str(v))


def H(s):
    return Node("h", s=s)


def R(s):
    return Node("r", s=s)


def M():
    return Node("m")


def D(name, version="1.0", **kw):
    return Node("d", name=name, version=version, kw=kw)


def Xp(*results, ret="auto"):
    return Node("x", kids=list(results), ret=ret)


# -- real objects --------------------------------------------------------------------
class ReprObj:
    def __init__(self, s):
        self.s = s

    def _repr_html_(self):
        return self.s


class Expander:
    """A tagifiable object: returns what make() builds."""

    def __init__(self, make):
        self.make = make
        self.calls = 0

    def tagify(self):
        self.calls += 1
        return self.make()


class ReprExpander(Expander):
    """Tagifiable and self-rendering."""

    def __init__(self, make, s):
        Expander.__init__(self, make)
        self.s = s

    def _repr_html_(self):
        return self.s


_SUBS = {}


def subs(ht):
    """Subclasses of the library's classes, as an application defines them."""
    if ht.Tag in _SUBS:
        return _SUBS[ht.Tag]

    class Card(ht.Tag):
        def __init__(self, mine, *kids):
            super().__init__("div", {"class": "card"}, *kids, data_mine=mine)
            self.mine = mine

    class Items(ht.TagList):
        mine = "items"

    class Dep(ht.HTMLDependency):
        def __init__(self, mine):
            super().__init__("sub-" + mine, "1.2", source={"subdir": "sub"},
                             script={"src": "a.js"})
            self.mine = mine

    class Meta(ht.MetadataNode):
        def __init__(self, mine):
            self.mine = mine

        def __eq__(self, other):
            return isinstance(other, Meta) and other.mine == self.mine

    class Plain(ht.Tag):
        pass

    class Markup(ht.HTML):
        pass

    class _Subs:
        pass
    out = _SUBS[ht.Tag] = _Subs()
    out.Card, out.Items, out.Dep, out.Meta = Card, Items, Dep, Meta
    out.Plain, out.Markup = Plain, Markup
    return out


class Str2(str):
    """A str subclass."""


class StrMarkup(str):
    """A str subclass of another library that calls itself markup."""

    def __html__(self):
        return str.__str__(self)

    def __html_format__(self, spec):
        return str.__str__(self)


def tag_class(ht, n):
    """Elements of these names are made with an application's subclass of Tag."""
    return subs(ht).Plain if not strs.is_sym(n.name) and n.name in SUBCLASSED else ht.Tag


SUBCLASSED = ("p", "i", "section", "body", "u")


def build(S, n):
    ht = S.ht
    k = n.kind
    if k == "el":
        kids = [build(S, c) for c in n.kids]
        attrs = {}
        for a in n.attrs:
            attrs[a[0]] = ht.HTML(a[1]) if len(a) > 2 and a[2] else a[1]
        cls = tag_class(ht, n)
        return cls(n.name, attrs, *kids, _add_ws=n.ws) if attrs else \
            cls(n.name, *kids, _add_ws=n.ws)
    if k == "list":
        return ht.TagList(*[build(S, c) for c in n.kids])
    if k == "t":
        return n.s
    if k == "n":
        return n.v
    if k == "h":
        return ht.HTML(n.s) if strs.is_sym(n.s) else subs(ht).Markup(n.s)
    if k == "r":
        return ReprObj(n.s)
    if k == "m":
        return ht.MetadataNode()
    if k == "d":
        return ht.HTMLDependency(n.name, n.version, **n.kw)
    if k == "x":
        return Expander(lambda: n.make(S))
    raise AssertionError(k)


# -- patterns ------------------------------------------------------------------------
def spaces(n):
    """2*n spaces, n int or symbolic int."""
    if isinstance(n, strs.SymInt):
        return trep(" ", X.mulc(n.e, 2))
    return ("  " * n,) if n else ()


def vis(kids):
    return [k for k in kids if k.kind not in ("m", "d")]


def is_block(n):
    return n.kind == "el" and n.ws


def contains_block(n):
    return n.kind == "el" and (bool(n.ws) or any(contains_block(c) for c in n.kids))


def open_tag(n, close=">"):
    if getattr(n, "anyorder", False) and len(n.attrs) > 1:
        return pat.seq("<", n.name) + pat.alt(*[_attrs(q) for q in itertools.permutations(n.attrs)]) \
            + (close,)
    return pat.seq("<", n.name) + _attrs(n.attrs) + (close,)


def _attrs(attrs):
    p = ()
    for a in attrs:
        v = pat.lit(a[1]) if len(a) > 2 and a[2] else pat.attr(_val(a[1]))
        p += pat.seq(" ", a[0], '="') + v + ('"',)
    return p


def _val(v):
    if v is True:
        return ""
    return v if isinstance(v, str) else str(v)


def leaf(n, raw=False):
    if n.kind in ("t", "n"):
        return pat.lit(n.s) if raw else pat.enc(n.s)
    return pat.lit(n.s)


def inline(n):
    """Exact concatenation of open tags, content and close tags."""
    if n.kind != "el":
        return leaf(n)
    kids = vis(n.kids)
    if not kids and n.void:
        return open_tag(n, "/>")
    p = open_tag(n)
    for c in kids:
        p += inline(c) if c.kind == "el" else leaf(c, n.raw)
    return p + pat.seq("</", n.name, ">")


def block(n, k, eol):
    """Documented layout of a block tag at indentation level k (k not None)."""
    kids = vis(n.kids)
    if not kids and n.void:
        return spaces(k) + open_tag(n, "/>")
    p = spaces(k) + open_tag(n)
    end = pat.seq("</", n.name, ">")
    if not kids:
        return p + end
    if len(kids) == 1 and kids[0].kind in ("t", "n", "h"):
        return p + leaf(kids[0], n.raw) + end
    return p + pat.lit(eol) + lines(kids, k + 1, eol, n.raw) + pat.lit(eol) + spaces(k) + end


def lines(kids, k, eol, raw=False):
    out = ()
    first = True
    inrun = False
    for c in vis(kids):
        if is_block(c):
            if not first:
                out += pat.lit(eol)
            out += block(c, k, eol)
            inrun = False
        else:
            if not inrun:
                if not first:
                    out += pat.lit(eol)
                out += spaces(k)
            out += inline(c) if c.kind == "el" else leaf(c, raw)
            inrun = True
        first = False
    return out


def loose(n, w):
    """C05: layout whitespace (pattern w) only immediately inside or outside the opening
    or closing tag of a block tag; everything else exact."""
    if n.kind == "list":
        return loose_kids(n.kids, w, False)
    if n.kind != "el":
        return leaf(n)
    if not contains_block(n):
        return inline(n)
    kids = vis(n.kids)
    if not kids and n.void:
        return open_tag(n, "/>")
    end = pat.seq("</", n.name, ">")
    if n.ws and not kids:
        return open_tag(n) + w + end
    if n.ws and len(kids) == 1 and kids[0].kind in ("t", "n", "h"):
        return open_tag(n) + w + leaf(kids[0], n.raw) + w + end
    return open_tag(n) + loose_kids(kids, w, n.ws, n.raw) + end


def loose_kids(kids, w, inside, raw=False):
    p = w if inside else ()
    prev_ws = inside
    for c in vis(kids):
        b = is_block(c)
        if b and not prev_ws:
            p += w
        p += loose(c, w) if c.kind == "el" else leaf(c, raw)
        if b:
            p += w
        prev_ws = b
    if inside and not prev_ws:
        p += w
    return p


# -- generated trees -------------------------------------------------------------------
class Gen:
    """All ordered forests with at most `budget` nodes over the given node kinds; each
    decision is a solver-enumerated choice variable.  `pre` fixes the first decisions so
    that the space can be split into shapes."""

    def __init__(self, S, kinds, budget, pre="", texts=1, maxdepth=99, inline_only_in_inline=False,
                 tlen=1, tcs=X.UNICODE):
        self.S = S
        self.kinds = kinds
        self.left = budget
        self.pre = list(pre)
        self.n = 0
        self.leafs = 0
        self.texts = texts
        self.maxdepth = maxdepth
        self.nested = inline_only_in_inline
        self.tlen = tlen
        self.tcs = tcs

    def opt(self, options):
        self.n += 1
        if self.pre:
            k = self.pre.pop(0)
            return k if k in options else options[0]
        return options[self.S.choice("g%d.%d" % (self.n, len(options)), len(options))]

    def text(self):
        self.leafs += 1
        if self.leafs <= self.texts:
            return self.S.str("t%d" % self.leafs, self.tlen, self.tlen, cs=self.tcs)
        return "k%d<&" % self.leafs

    def forest(self, depth=0, in_inline=False, stop=True):
        out = []
        while self.left > 0:
            kinds = self.kinds
            if in_inline and self.nested:
                kinds = kinds.replace("B", "").replace("W", "")
            k = self.opt("." + kinds if stop or out else kinds)
            if k == ".":
                break
            self.left -= 1
            out.append(self.node(k, depth))
        return out

    def node(self, k, depth):
        if k in "BI":
            sub = self.forest(depth + 1, in_inline=(k == "I")) if depth < self.maxdepth else []
            return El("div" if k == "B" else "span", *sub, ws=(k == "B"))
        if k == "V":
            return El("br", ws=False)
        if k == "W":
            return El("hr", ws=True)
        if k == "T":
            return T(self.text())
        if k == "N":
            self.leafs += 1
            return N(10 + self.leafs)
        if k == "H":
            return H(self.text())
        if k == "R":
            return R(self.text())
        if k == "M":
            return M()
        if k == "D":
            self.leafs += 1
            return D("dep%d" % self.leafs)
        raise AssertionError(k)


def prefixes(kinds, n, stop=False):
    """First-decision prefixes that partition the generated space."""
    import itertools
    first = list(kinds)
    rest = ["."] + list(kinds)
    out = []
    for p in itertools.product(first, *[rest] * (n - 1)):
        s = "".join(p)
        out.append(s)
    return out


# -- C01: what a tokenizer sees ---------------------------------------------------------
def enc_any(s, quoted):
    """Any spelling that decodes to s: special characters as references, or raw where that
    is unambiguous."""
    must = {"&", '"'} if quoted else {"&", "<", ">"}
    out = []
    for t in strs.toks_of(s):
        if type(t) is str:
            for c in t:
                if c in pat.REFS:
                    alts = [(True, (r,)) for r in pat.REFS[c]]
                    if c not in must:
                        alts.insert(0, (True, (c,)))
                    out.append(strs.talt(alts))
                else:
                    out.append(c)
        elif type(t) is strs.Ch:
            alts = []
            for c in pat.META_ATTR:
                here = X.In(t.e, ((ord(c), ord(c)),))
                if here is False:
                    continue
                alts += [(here, (r,)) for r in pat.REFS[c]]
            raw = X.Not(X.In(t.e, X.cs_of("".join(must))))
            if raw is not False:
                alts.append((raw, (strs.tch(t.e),)))
            out.append(strs.talt(alts))
        elif type(t) is strs.It:
            out.extend(strs.tit(t.c, enc_any_t(t.a, quoted), enc_any_t(t.b, quoted)))
        else:
            out.extend(pat._enc((t,), pat.META_ATTR if quoted else pat.META_TEXT))
    return tuple(out)


def enc_any_t(ts, quoted):
    class _S:
        pass
    out = ()
    for t in ts:
        out += enc_any(strs.mk((t,)) if not isinstance(t, str) else t, quoted)
    return out


WSP = pat.ws(X.cs_of(" \t\r\n\f"))


def parsed(n, out):
    """Append the token sequence of node n; text leaves of one run are kept together."""
    if n.kind == "list":
        for c in vis(n.kids):
            parsed(c, out)
        return
    if n.kind in ("t", "n"):
        out.append(("text", n.s))
        return
    if n.kind == "h":
        out.append(("html", n.s))
        return
    kids = vis(n.kids)
    if n.void and not kids:
        out.append(("tag", start(n) + WSP + ("/>",)))
        return
    out.append(("tag", start(n) + WSP + (">",)))
    for c in kids:
        parsed(c, out)
    out.append(("tag", pat.seq("</", n.name) + WSP + (">",)))


def start(n):
    p = pat.seq("<", n.name)
    for a in n.attrs:
        v = _val(a[1])
        q = ('="',) + enc_any(v, True) + ('"',)
        if isinstance(v, str) and not strs.is_sym(v) and v == "":
            q = pat.alt(('=""',), ())
        p += (" ",) + WSP + pat.lit(a[0]) + q
    return p


def token_pattern(n):
    toks = []
    parsed(n, toks)
    p = WSP
    prev = "tag"
    for k, v in toks:
        if k == "tag":
            if prev != "tag":
                p += WSP
            p += v + WSP
        else:
            p += enc_any(v, False) if k == "text" else pat.lit(v)
        prev = k
    return p if prev == "tag" else p + WSP


def tag_functions(mod):
    """Names of the element functions a module exports."""
    import types
    return sorted(n for n, f in vars(mod).items()
                  if isinstance(f, types.FunctionType) and not n.startswith("_")
                  and f.__module__ == mod.__name__)

# scripts/generate_tags.py _INLINE_TAG_NAMES: the project's classification
INLINE = frozenset("""a abbr acronym audio b bdi bdo big br button canvas cite code data datalist del
dfn em embed i iframe img input ins kbd label map mark meter noscript object output picture pre
progress q ruby s samp select slot small span strong sub sup svg template textarea time u tt var
video wbr""".split())


FLOATS = [0.0, -0.0, 1.5, -2.25, 1e300, 1e-7, 1e16, 1e22, 123456789.125, 0.1, 1 / 3, 2.0 ** 70, 5e-324,
          123456789.123456789, -1e15, 999999999999.5, float("inf"), float("-inf"), float("nan"),
          10.0, True, False, 10 ** 30, -10 ** 40]


def spot(S, n, name="at"):
    """A position among n: any of them when few, a spread of them when many."""
    if n <= 14:
        return S.choice("%s%d" % (name, n), n)
    return S.pick("%s%d" % (name, n), sorted({0, 1, 9, 33, n // 2, n * 2 // 3, n - 2, n - 1}))
