"""C20  JSX components convert purely and surface all dependencies."""
import importlib
import os

from props import common as C
from symx import expr as X
from symx import models, pat, session, strs

ENCODED = ["JSXTag.__init__", "JSXTag.tagify", "JSXTag.__str__", "JSXTag.append", "JSXTag.extend",
           "_walk_attrs_and_children", "_render_react_js", "_serialize_attr",
           "_serialize_style_attr", "JSXTagAttrDict.*", "jsx_tag_create", "jsx", "_lib_dependency",
           "TagList.tagify", "HTMLDocument.render"]
BOUNDS = {
    "quick": "every component tree of up to 4 nodes below the root over components, HTML tags, "
             "strings, dependencies, other metadata nodes and tagifiable objects (with 0 to 3 "
             "results, nested), with the last text arbitrary (one character), converted up to 3 "
             "times; every kind of prop value (18) on components and the HTML attributes of tags, "
             "nested to depth 2, at 5 places of the tree; prop names of up to 3 characters over "
             "letters, '_' and '-' with collisions; strings of up to 2 arbitrary characters; "
             "children added in 8 ways; allow-lists of 0 to 2 names of 2 characters"
             "; jsx() values of several parts and sums of them; 120 children, props or list "
             "items, 40 levels; components shared by several parents; style props of 7 kinds; "
             "allow-lists with '_' and '-'",
    "thorough": "trees of up to 5 nodes, strings of up to 3 characters, props nested to depth 3",
}
COVER = ["tree", "prop", "names", "collide", "added", "allowed", "rejected", "lib", "expanded",
         "repeat"]
ASSUMPTIONS = [
    "strings contain no backslash and no JavaScript line break (LF, CR, U+2028, U+2029)",
    "where the text of a literal could be spelt in several ways, any JavaScript spelling of it is "
    "accepted; white space between tokens is free",
    "style strings are 'name:value;' declarations without white space around the names"]
LIMITS = {"quick": {"max_paths": 4000}, "thorough": {"max_paths": 60000}}
TEXT = X.cs_minus(session.UNICODE, X.cs_of("\\\n\r\u2028\u2029"))
NC = X.cs_of("abAx_-")
WS = pat.ws()


def shapes(tier):
    q = tier == "quick"
    out = []
    kinds = "JBTDMX"
    n = 4 if q else 5
    for p in C.prefixes(kinds, 2 if q else 3):
        out.append(dict(kind="tree", pre=p, n=n))
    out += [dict(kind="prop", v=v, at=a) for v in range(len(VALUES)) for a in range(len(PLACES))]
    out += [dict(kind="nest", v=v, w=w) for v in ("list", "tuple", "dict", "tag", "comp", "exp")
            for w in range(len(VALUES))]
    out += [dict(kind="names", n=i) for i in range(3)]
    out += [dict(kind="add", how=h) for h in range(len(ADD))]
    out += [dict(kind="allow", n=i, how=h) for i in range(3) for h in range(4)]
    out += [dict(kind="style", how=h) for h in range(len(STYLES))]
    out += [dict(kind="lib"), dict(kind="text"), dict(kind="number"), dict(kind="wrap"),
            dict(kind="share")]
    out += [dict(kind="large", w=w) for w in ("kids", "props", "deep", "list", "nest", "tags", "exp")]
    return out


def J(S):
    return importlib.import_module(S.ht.__name__ + "._jsx")


# -- specification nodes -------------------------------------------------------------------
class N:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.props = []
        self.kids = []
        self.__dict__.update(kw)


_NOTES = {}


def note_class(ht):
    """Metadata nodes that all compare equal and are distinct all the same."""
    if ht.MetadataNode not in _NOTES:
        class Note(ht.MetadataNode):
            def __eq__(self, other):
                return isinstance(other, Note)

            def __hash__(self):
                return 1
        _NOTES[ht.MetadataNode] = Note
    return _NOTES[ht.MetadataNode]


def build(S, n):
    """The real object of a node."""
    ht, j = S.ht, J(S)
    k = n.kind
    if k == "J":
        return j.JSXTag(n.name, *[build(S, c) for c in n.kids],
                        **{p: build_value(S, v) for p, v in n.props})
    if k == "B":
        return ht.Tag(n.name, {p: build_value(S, v) for p, v in n.props},
                      *[build(S, c) for c in n.kids])
    if k == "T":
        return n.s
    if k == "D":
        return dep(S, n)
    if k == "M":
        m = note_class(ht)()
        m.mark = n.mark
        return m
    if k == "X":
        return Exp(S, n)
    raise AssertionError(k)


def dep(S, n):
    """Dependencies of several forms."""
    ht = S.ht
    i = sum(map(ord, n.name + n.ver)) % 3
    if i == 0:
        return ht.HTMLDependency(n.name, n.ver, source={"href": "/" + n.name},
                                 script={"src": "s.js"})
    if i == 1:
        return ht.HTMLDependency(n.name, n.ver, source={"subdir": "d"}, all_files=True,
                                 stylesheet=[{"href": "a.css"}, {"href": "b.css"}],
                                 meta={"name": "m", "content": n.ver})
    return ht.HTMLDependency(n.name, n.ver, head=ht.TagList(ht.Tag("title", n.ver), "x"))


class Exp:
    """A tagifiable object with the given results."""

    def __init__(self, S, n):
        self.S, self.n = S, n
        self.built = None

    def tagify(self):
        n = self.n
        r = [build(self.S, c) for c in n.kids]
        if len(r) == 1 and not n.aslist:
            if n.keep:
                # the same object each time
                if self.built is None:
                    self.built = r[0]
                return self.built
            return r[0]
        return self.S.ht.TagList(*r)


def build_value(S, v):
    k = v.kind
    if k in ("const", "str", "num"):
        return v.v
    if k == "jsx":
        jsx = J(S).jsx
        if v.__dict__.get("parts"):
            return jsx(*v.parts)
        if v.__dict__.get("sum"):
            return jsx(v.sum[0]) + jsx(v.sum[1])
        return jsx(v.v)
    if k == "list":
        return [build_value(S, x) for x in v.items]
    if k == "tuple":
        return tuple(build_value(S, x) for x in v.items)
    if k == "dict":
        return {key: build_value(S, x) for key, x in v.items}
    if k == "node":
        return build(S, v.node)
    raise AssertionError(k)


def expand(kids):
    """The children after expansion, metadata left in."""
    out = []
    for c in kids:
        if c.kind == "X":
            out += expand(c.kids)
        else:
            out.append(c)
    return out


def meta(n, out):
    """Metadata nodes to be carried."""
    for p, v in n.props:
        if v.kind == "node":
            for c in expand([v.node]):
                meta_of(c, out)
        elif v.kind in ("list", "tuple", "dict"):
            optional(v, out)
    for c in expand(n.kids):
        meta_of(c, out)


def meta_of(c, out):
    if c.kind in "DM":
        out.append(c)
    else:
        meta(c, out)


def optional(v, out):
    for x in v.items:
        x = x[1] if v.kind == "dict" else x
        if x.kind == "node":
            for c in expand([x.node]):
                meta_of(c, out)
        elif x.kind in ("list", "tuple", "dict"):
            optional(x, out)


# -- the expected JavaScript -------------------------------------------------------------------
def u4(e):
    return pat.alt(("\\u",) + models.hex_toks(e, 4), ("\\u",) + models.hex_toks(e, 4, True))


def jchar(c):
    """Spellings of one character inside a double-quoted literal."""
    if type(c) is str:
        o = ord(c)
        alts = [(True, ("\\u%04x" % o,)), (True, ("\\u%04X" % o,))] if o < 0x10000 else []
        if c == '"':
            alts.insert(0, (True, ('\\"',)))
        else:
            alts.insert(0, (True, (c,)))
        if o < 256:
            alts.append((True, ("\\x%02x" % o,)))
        if c in "/'":
            alts.append((True, ("\\" + c,)))
        return pat.talt(alts, "js")
    e = c.e
    isq = X.In(e, ((34, 34),))
    alts = []
    if isq is not False:
        alts.append((isq, ('\\"',)))
    if isq is not True:
        alts.append((X.Not(isq), (pat.tch(e),)))
    bmp = X.In(e, ((0, 0xFFFF),))
    if bmp is not False:
        alts.append((bmp, u4(e)))
    return pat.talt(alts, "js")


def jtext(s):
    out = []
    for t in pat.toks_of(s):
        if type(t) is str:
            out.extend(jchar(c) for c in t)
        elif type(t) is pat.Ch:
            out.append(jchar(t))
        elif type(t) is pat.It:
            out.extend(pat.tit(t.c, jt(t.a), jt(t.b)))
        else:
            out.append(t)
    return tuple(out)


def jt(ts):
    return jtext(strs.mk(ts)) if ts else ()


def jlit(s):
    return ('"',) + jtext(s) + ('"',)


def norm(x):
    if x.endswith("_"):
        x = x[:-1]
    return x.replace("_", "-")


def jnum(v):
    if isinstance(v, float):
        if v != v:
            return pat.alt(("NaN",), ("Number.NaN",))
        if v in (float("inf"), float("-inf")):
            s = "-" if v < 0 else ""
            return pat.alt((s + "Infinity",), (s + "Number.POSITIVE_INFINITY",))
        alts = [(str(v),)]
        if v == int(v) and abs(v) < 1e15:
            alts.append((str(int(v)),))
        return pat.alt(*alts)
    return pat.lit(str(v))


def jvalue(v):
    k = v.kind
    if k == "const":
        if v.v is None:
            return pat.lit("null")
        return pat.lit("true" if v.v else "false")
    if k == "str":
        return jlit(v.v)
    if k == "num":
        return jnum(v.v)
    if k == "jsx":
        return pat.lit(v.v)
    if k in ("list", "tuple"):
        return ("[",) + joined([jvalue(x) for x in v.items]) + ("]",)
    if k == "dict":
        return ("{",) + joined([jlit(str_of(key)) + WS + (":",) + WS + jvalue(x)
                                for key, x in v.items]) + ("}",)
    if k == "node":
        e = [c for c in expand([v.node])]
        assert len(e) == 1
        return jnode(e[0])
    if k == "style":
        return ("{",) + joined([jlit(a) + WS + (":",) + WS + jlit(b) for a, b in v.items]) + ("}",)
    raise AssertionError(k)


def str_of(key):
    return key if isinstance(key, str) else str(key)


def joined(ps):
    out = WS
    for i, p in enumerate(ps):
        if i:
            out += WS + (",",) + WS
        out += p
    return out + WS


def jnode(n):
    """React.createElement expression of a component or tag."""
    if n.kind == "T":
        return jlit(n.s)
    name = pat.lit(n.name) if n.kind == "J" else pat.alt(("'" + n.name + "'",), ('"' + n.name + '"',))
    props = []
    for p, v in n.props:
        if n.kind == "B" and v.kind == "const":
            if v.v is not True:
                continue
            v = N("str", v="")
        if n.kind == "B" and v.kind == "num":
            v = N("str", v=str(v.v))
        props.append(jlit(norm(p)) + WS + (":",) + WS + jvalue(v))
    kids = [jnode(c) for c in expand(n.kids) if c.kind not in "DM"]
    p = ("React.createElement(",) + WS + name
    full = WS + (",",) + WS + ("{",) + joined(props) + ("}",)
    if not props and not kids:
        p += pat.alt((), full, (" , null",))
    else:
        p += full
    for c in kids:
        p += WS + (",",) + WS + c
    return p + WS + (")",)


# -- purity ----------------------------------------------------------------------------------------
def snap(S, x, depth=0):
    """The structure reachable from x, with the identity of every mutable object."""
    ht, j = S.ht, J(S)
    if isinstance(x, str):
        return x
    if isinstance(x, j.JSXTag):
        return ("jsx", id(x), x.name, id(x.attrs), [(k, snap(S, v)) for k, v in x.attrs.items()],
                snap(S, x.children), sorted(k for k in vars(x)))
    if isinstance(x, ht.Tag):
        return ("tag", id(x), x.name, x.add_ws, id(x.attrs),
                [(k, snap(S, v)) for k, v in x.attrs.items()], snap(S, x.children),
                sorted(k for k in vars(x)))
    if isinstance(x, ht.TagList):
        return ("list", id(x), [snap(S, c) for c in x])
    if isinstance(x, ht.HTMLDependency):
        return ("dep", id(x), [(k, str(v) if k == "version" else snap(S, v))
                               for k, v in sorted(vars(x).items())])
    if isinstance(x, dict):
        return ("dict", id(x), [(k, snap(S, v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ("seq", id(x), [snap(S, v) for v in x])
    if isinstance(x, Exp):
        return ("exp", id(x), None if x.built is None else snap(S, x.built))
    if x is None or isinstance(x, (bool, int, float)):
        return ("c", repr(x))
    return ("obj", type(x).__name__, id(x))


def walk(S, a, b, conds):
    if isinstance(a, str) or isinstance(b, str):
        if not (isinstance(a, str) and isinstance(b, str)):
            return False
        if a is not b:
            conds.append((a, b))
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(walk(S, x, y, conds) for x, y in zip(a, b))
    return a == b


def same(S, a, b, label):
    conds = []
    ok = walk(S, a, b, conds)
    S.check(ok, label)
    if ok:
        for x, y in conds:
            S.check_eq(x, y, label)


# -- the check of one component -----------------------------------------------------------------------
def warm(x, S, depth=0):
    """Let objects that hand out the same expansion each time create it."""
    j = J(S)
    if isinstance(x, Exp):
        if x.n.keep:
            x.tagify()
            warm(x.built, S, depth + 1)
    elif isinstance(x, (S.ht.Tag, j.JSXTag)):
        for c in list(x.children) + list(x.attrs.values()):
            warm(c, S, depth + 1)
    elif isinstance(x, (list, tuple)):
        for c in x:
            warm(c, S, depth + 1)
    elif isinstance(x, dict):
        for c in x.values():
            warm(c, S, depth + 1)


def verify(S, n, x=None, times=2):
    x = build(S, n) if x is None else x
    warm(x, S)
    before = snap(S, x)
    out = []
    texts = []
    for r in range(times):
        t, e = S.attempt(x.tagify)
        if e is not None:
            S.check(False, "conversion succeeds (%s)" % type(e).__name__)
            return None
        out.append(t)
        same(S, before, snap(S, x), "conversion leaves the component unchanged")
        texts.append(script(S, n, t))
    s = str(x)
    same(S, before, snap(S, x), "str() leaves the component unchanged")
    want = []
    meta(n, want)
    if not any(c.kind == "M" for c in want):
        # (plain metadata nodes compare by identity)
        S.check(out[0] == out[1], "converting again gives an equal result")
    for t in out[1:]:
        S.check_eq(str(out[0]), str(t), "converting again gives the same text")
    S.check_eq(s, str(out[0]), "str() is the text of the conversion")
    S.covers("repeat")
    S.observe(s)
    return out[0]


def script(S, n, t):
    ht = S.ht
    ok = isinstance(t, ht.Tag) and t.name == "script"
    S.check(ok, "one <script> element")
    if not ok:
        return
    text = [c for c in t.children if not isinstance(c, ht.MetadataNode)]
    metas = [c for c in t.children if isinstance(c, ht.MetadataNode)]
    S.check(len(text) == 1 and isinstance(text[0], ht.HTML), "the script is one piece of code")
    carried(S, n, metas)
    if len(text) != 1:
        return
    js = text[0].as_string()
    i = js.find("React.createElement(")
    S.check(i >= 0, "a React.createElement expression")
    if i < 0:
        return
    S.check_match(js[i:], jnode(n) + WS + (",",) + pat.anything(),
                  "the expression mirrors the component")
    return js


def carried(S, n, metas):
    ht = S.ht
    want = []
    meta(n, want)
    deps = [m for m in metas if isinstance(m, ht.HTMLDependency)]
    names = [d.name for d in deps]
    for lib in ("react", "react-dom"):
        S.check(any(d.name == lib and len(d.script) > 0 for d in deps), "carries " + lib)
    others = [m for m in metas if not isinstance(m, ht.HTMLDependency)]
    S.check(sorted({str(getattr(m, "mark", None)) for m in others})
            == sorted({str(c.mark) for c in want if c.kind == "M"}),
            "carries every other metadata node")
    for c in want:
        if c.kind == "D":
            w = dep(S, c)
            ok = any(d == w and d.name == c.name and str(d.version) == c.ver for d in deps)
            S.check(ok, "carries every dependency")
    known = {c.name for c in want if c.kind == "D"} | {"react", "react-dom"}
    S.check(all(x in known for x in names), "carries no other dependency")


# -- shapes ---------------------------------------------------------------------------------------------
def run(S, sh):
    globals()["r_" + sh["kind"]](S, sh)


class Gen:
    """Every tree of up to n nodes; decisions are choice variables."""

    def __init__(self, S, n, pre):
        self.S, self.left, self.pre, self.k, self.t = S, n, list(pre), 0, 0

    def opt(self, options):
        self.k += 1
        if self.pre:
            c = self.pre.pop(0)
            return c if c in options else options[0]
        return options[self.S.choice("g%d.%d" % (self.k, len(options)), len(options))]

    def forest(self, depth, first=False):
        out = []
        while self.left > 0:
            k = self.opt("." + "JBTDMX" if out or not first else "JBTDMX")
            if k == ".":
                break
            self.left -= 1
            out.append(self.node(k, depth))
        return out

    def node(self, k, depth):
        self.t += 1
        i = self.t
        if k == "J":
            return N("J", name=("Foo", "Bar.Baz")[i % 2], kids=self.forest(depth + 1))
        if k == "B":
            return N("B", name=("div", "span")[i % 2], kids=self.forest(depth + 1))
        if k == "T":
            return N("T", s=self.S.str("t", 1, 1, cs=TEXT) if i == 2 else 'k"%d' % i)
        if k == "D":
            return N("D", name=("dep", "react", "a b")[i % 3], ver="1.%d" % i)
        if k == "M":
            return N("M", mark=i)
        self.S.covers("expanded")
        kids = self.forest(depth + 1)
        # (what tagify() returns by itself is not a tagifiable object that is no tag)
        return N("X", kids=kids, aslist=len(kids) != 1 or kids[0].kind == "X" or i % 2 == 0,
                 keep=i % 3 == 0)


def r_tree(S, sh):
    n = N("J", name="Root", kids=Gen(S, sh["n"], sh["pre"]).forest(0, True))
    verify(S, n)
    S.covers("tree")


# -- prop values -------------------------------------------------------------------------------------------
def tlen(S):
    return 2 if S.tier == "quick" else 3


def s_(S, nm):
    return N("str", v=S.str(nm, tlen(S), cs=TEXT))


def D(i):
    return N("D", name="pd%s" % i, ver="2.0")


def node(x):
    return N("node", node=x)


def jsxparts(s, add):
    # lines of one expression; the sum of two
    if add:
        return N("jsx", v="x => x + 'y'", sum=("x => ", "x + 'y'"))
    return N("jsx", v="f(\n" + s + "\n)", parts=("f(", s, ")"))


VALUES = (
    ("none", lambda S, k: N("const", v=None)),
    ("bool", lambda S, k: N("const", v=S.flag(k + "b"))),
    ("int", lambda S, k: N("num", v=S.int(k + "i", -9999, 9999))),
    ("float", lambda S, k: N("num", v=S.pick(k + "f", (0.5, -2.0, 1e20, 1e-7, 3.0)))),
    ("special", lambda S, k: N("num", v=S.pick(k + "f", (float("nan"), float("inf"),
                                                          float("-inf"))))),
    ("str", s_),
    ("jsx", lambda S, k: N("jsx", v="() => " + S.str(k + "x", 2, cs=TEXT))),
    ("jsxparts", lambda S, k: jsxparts(S.str(k + "x", 1, cs=TEXT), S.flag(k + "s"))),
    ("list", lambda S, k: N("list", items=[s_(S, k + "l"), N("num", v=3), N("const", v=None)])),
    ("empty", lambda S, k: N(S.pick(k + "e", ("list", "tuple", "dict")), items=[])),
    ("tuple", lambda S, k: N("tuple", items=[N("const", v=True), s_(S, k + "l")])),
    ("dict", lambda S, k: N("dict", items=[(S.str(k + "k", 1, 1, cs=TEXT), s_(S, k + "l")),
                                           ("k2", N("num", v=1.5)), (7, N("const", v=False))])),
    ("tag", lambda S, k: node(N("B", name="em", props=[("title", s_(S, k + "l"))],
                                kids=[D(1), N("T", s='a"')]))),
    ("comp", lambda S, k: node(N("J", name="Sub", props=[("p", s_(S, k + "l"))],
                                 kids=[N("T", s="z"), D(2), N("B", name="i", kids=[N("M", mark=0)])]))),
    ("void", lambda S, k: node(N(S.pick(k + "v", "JB"), name="Q"))),
    ("exp", lambda S, k: node(N("X", aslist=False, keep=S.flag(k + "k"),
                                kids=[N("B", name="u", kids=[D(3), N("T", s="w")])]))),
    ("expcomp", lambda S, k: node(N("X", aslist=False, keep=S.flag(k + "k"),
                                    kids=[N("J", name="U", kids=[D(4), N("X", aslist=True, keep=False, kids=[
                                        D(5), N("T", s="q")])])]))),
    ("tags", lambda S, k: N("list", items=[node(N("B", name="b", kids=[N("T", s="1")])),
                                           node(N("J", name="L", props=[("a", s_(S, k + "l"))]))])),
    ("tagdict", lambda S, k: N("dict", items=[("x", node(N("B", name="b"))),
                                              ("y", N("list", items=[node(N("J", name="L"))]))])),
)
PLACES = ("root", "nested", "expanded", "inprop", "twice")


def r_prop(S, sh):
    v = VALUES[sh["v"]][1](S, "v.")
    at = PLACES[sh["at"]]
    S.covers("prop")
    c = N("J", name="P", props=[("before", N("num", v=1)), ("my_prop", v), ("after_", N("str", v="z"))])
    if at == "root":
        n = c
        c.kids = [N("T", s="t"), D("c")]
    elif at == "nested":
        n = N("J", name="R", kids=[N("B", name="div", kids=[c, N("T", s="t")])])
    elif at == "expanded":
        n = N("J", name="R", kids=[N("X", aslist=True, keep=False, kids=[N("T", s="u"), c, c])])
    elif at == "inprop":
        n = N("J", name="R", props=[("q", node(c))])
    else:
        n = N("J", name="R", props=[("x", v)], kids=[c])
    verify(S, n)


def r_nest(S, sh):
    w = VALUES[sh["w"]][1](S, "v.")
    k = sh["v"]
    if k in ("list", "tuple"):
        v = N(k, items=[N("num", v=1), w, N(k, items=[w])])
    elif k == "dict":
        v = N(k, items=[("a", w), ("b", N("dict", items=[("c", w)]))])
    elif k == "tag":
        v = node(N("B", name="em", kids=[N("J", name="In", props=[("w", w)])]))
    elif k == "comp":
        v = node(N("J", name="Out", props=[("w", w)], kids=[N("J", name="In", props=[("u", w)])]))
    else:
        v = node(N("X", aslist=False, keep=S.flag("keep"),
                   kids=[N("J", name="In", props=[("w", w)])]))
    verify(S, N("J", name="R", props=[("v", v)], kids=[N("B", name="p", kids=[D("k")])]))
    S.covers("prop")


# -- prop names ------------------------------------------------------------------------------------------------
def r_names(S, sh):
    j = J(S)
    a = S.str("a", 3, 1, cs=NC)
    b = S.str("b", 2, 1, cs=NC)
    va, vb = S.str("va", 1, 1, cs=TEXT), S.int("vb", 0, 99)
    S.assume(a != b)
    if sh["n"] == 0:
        x = j.JSXTag("Foo", **{a: va, b: vb})
    elif sh["n"] == 1:
        x = j.JSXTag("Foo", **{a: va})
        x.attrs.update({b: vb})
    else:
        x = j.jsx_tag_create("Foo")(**{a: va})
        x.attrs[b] = vb
    collide = norm(a) == norm(b)
    if collide:
        S.covers("collide")
        v = pat.alt(jlit(va), pat.lit(str(vb)))
        props = jlit(norm(a)) + WS + (":",) + WS + v
    else:
        S.covers("names")
        props = joined([jlit(norm(a)) + WS + (":",) + WS + jlit(va),
                        jlit(norm(b)) + WS + (":",) + WS + pat.lit(str(vb))])
    S.check(len(x.attrs) == (1 if collide else 2), "each prop once")
    t = x.tagify()
    js = [c for c in t.children if isinstance(c, S.ht.HTML)][0].as_string()
    js = js[js.find("React.createElement("):]
    S.check_match(js, ("React.createElement(",) + WS + ("Foo",) + WS + (",",) + WS + ("{",) + WS +
                  props + WS + ("}",) + WS + (")",) + WS + (",",) + pat.anything(),
                  "each prop once under its normalised name")
    S.observe(js)


# -- children ---------------------------------------------------------------------------------------------------
ADD = (
    lambda S, x, k: x.append(*k),
    lambda S, x, k: [x.append(c) for c in k],
    lambda S, x, k: x.extend(k),
    lambda S, x, k: x.extend(c for c in k),
    lambda S, x, k: x.append(k),
    lambda S, x, k: x.append([k[0], [k[1:]]]),
    lambda S, x, k: x.append(S.ht.TagList(*k)),
    lambda S, x, k: [x.children.insert(2 + i, c) for i, c in enumerate(k)],
    lambda S, x, k: x.children.__iadd__(k),
    lambda S, x, k: x.children.extend([k, None]),
    lambda S, x, k: x.append(None, *k, None),
    lambda S, x, k: x.extend(tuple(k)),
    lambda S, x, k: setattr(x, "children", x.children + k),
    lambda S, x, k: setattr(x, "children", S.ht.TagList(*x.children, *k)),
)


def r_add(S, sh):
    j = J(S)
    t1, t2 = S.str("t1", 1, 1, cs=TEXT), S.str("t2", 1, 1, cs=TEXT)
    i = S.int("i", 0, 99)
    first = [N("T", s=t1), N("B", name="b")]
    more = [N("T", s=t2), N("J", name="K", kids=[D(1)]), D(2), N("T", s=str(i)),
            N("X", aslist=True, keep=False, kids=[N("T", s="e"), N("B", name="i"), D(3)]),
            N("T", s=t1)]
    n = N("J", name="Foo", kids=first + more)
    x = j.jsx_tag_create("Foo")(*[build(S, c) for c in first])
    real = [build(S, c) for c in more]
    real[3] = i
    ADD[sh["how"]](S, x, real)
    verify(S, n, x)
    # added after a conversion
    x.append("late")
    n.kids.append(N("T", s="late"))
    verify(S, n, x)
    S.covers("added")


# -- allow-lists ---------------------------------------------------------------------------------------------------
def r_allow(S, sh):
    j = J(S)
    cs = X.cs_of("abAB_")
    allowed = [S.str("a%d" % i, 2, 1, cs=cs) for i in range(sh["n"])]
    given = S.str("g", 2, 1, cs=cs)
    ok = any(given == a for a in allowed)
    names = [given]
    if sh["how"] == 1 and allowed:
        other = allowed[0]
        S.assume(other != given)
        names = [other, given]
    elif sh["how"] == 2:
        names = [given, "zz"]
        ok = False
    if sh["how"] == 3:
        x, e = S.attempt(lambda: j.JSXTag("Foo", allowedProps=list(allowed), **{k: 1 for k in names}))
    else:
        x, e = S.attempt(lambda: j.jsx_tag_create("Foo", allowedProps=list(allowed))(
            "child", **{k: 1 for k in names}))
    if ok:
        S.covers("allowed")
        S.check(e is None, "a declared prop is accepted")
    else:
        S.covers("rejected")
        S.check(e is not None, "a prop outside the allow-list is rejected at construction")
    y, e = S.attempt(lambda: j.JSXTag("Foo", "c", **{given: 1}))
    S.check(e is None, "without an allow-list every prop is accepted")
    S.observe([e is None])


# -- styles ----------------------------------------------------------------------------------------------------------
STYLES = ("dict", "css", "one", "colon", "empty", "tag", "none")


def r_style(S, sh):
    how = STYLES[sh["how"]]
    cs = X.cs_minus(TEXT, X.cs_of(":; \t\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"))
    cs = X.cs_and(cs, X.cs_of("".join(map(chr, range(33, 127))) + "\u00e9\U0001f600"))
    a, b = S.str("a", 1, 1, cs=cs), S.str("b", tlen(S), 1, cs=cs)
    if how == "dict":
        v = {"a" + a: b, "margin": "1rem"}
        items = [("a" + a, b), ("margin", "1rem")]
    elif how == "css":
        v = S.ht.css(color=b, margin="0")
        items = [("color", b), ("margin", "0")]
    elif how == "one":
        v = a + "x:" + b
        items = [(a + "x", b)]
    elif how == "colon":
        v = "background:url(x:" + b + ");color:red;"
        items = [("background", "url(x:" + b + ")"), ("color", "red")]
    elif how == "empty":
        v = S.pick("e", ("", ";", {}))
        items = []
    elif how == "tag":
        v = "q" + a + ":" + b + ";w:1"
        items = [("q" + a, b), ("w", "1")]
    else:
        v = None
        items = []
    val = N("style", items=items)
    j = J(S)
    if how == "tag":
        n = N("J", name="Foo", kids=[N("B", name="p", props=[("style", val)])])
        x = j.JSXTag("Foo", S.ht.Tag("p", style=v))
    elif how == "none":
        x, e = S.attempt(lambda: j.JSXTag("Foo", style=None).tagify())
        S.check(e is None, "style=None is accepted")
        return
    else:
        n = N("J", name="Foo", props=[("style", val)])
        x = j.JSXTag("Foo", style=v)
    verify(S, n, x)


# -- the rest -----------------------------------------------------------------------------------------------------------
def r_lib(S, sh):
    """The react files exist in the package."""
    ht = S.ht
    t = J(S).JSXTag("Foo").tagify()
    deps = {d.name: d for d in t.get_dependencies()}
    for name in ("react", "react-dom"):
        d = deps.get(name)
        S.check(d is not None, "carries " + name)
        if d is None:
            continue
        src = d.source_path_map(lib_prefix=None)["source"]
        S.check(len(d.script) >= 1, "has a script")
        for s in d.script:
            S.check(os.path.isfile(os.path.join(src, s["src"])), "the script file exists")
    r = ht.HTMLDocument(J(S).JSXTag("Foo", a=S.str("a", 1, 1, cs=TEXT))).render()
    S.check([d.name for d in r["dependencies"]][:2] == ["react", "react-dom"]
            or sorted(d.name for d in r["dependencies"]) == ["react", "react-dom"], "react once")
    S.observe(r["html"])
    S.covers("lib")


def r_text(S, sh):
    """Longer strings in every position of a string."""
    n = 3 if S.tier == "quick" else 4
    s = S.str("s", n, cs=TEXT)
    d = S.pick("d", ("child", "prop", "attr", "list", "dictval", "tagchild"))
    x = N("T", s=s)
    v = N("str", v=s)
    if d == "child":
        t = N("J", name="Foo", kids=[x, N("T", s="k"), x])
    elif d == "prop":
        t = N("J", name="Foo", props=[("a", v), ("b", v)])
    elif d == "attr":
        t = N("J", name="Foo", kids=[N("B", name="p", props=[("a", v)])])
    elif d == "list":
        t = N("J", name="Foo", props=[("a", N("list", items=[v, v]))])
    elif d == "dictval":
        t = N("J", name="Foo", props=[("a", N("dict", items=[("k", v)]))])
    else:
        t = N("J", name="Foo", kids=[N("B", name="p", kids=[x])])
    verify(S, t)


def r_number(S, sh):
    i = S.int("i", -99999, 99999)
    big = S.pick("big", (10 ** 20, -10 ** 15, 2 ** 53 + 1, True, False, 0, -1, 1e300, 0.1, -0.0))
    v = N("const", v=big) if isinstance(big, bool) else N("num", v=big)
    verify(S, N("J", name="Foo", props=[("a", N("num", v=i)), ("b", v),
                                        ("c", N("list", items=[v, N("num", v=i)]))]))


def r_wrap(S, sh):
    """Components inside ordinary trees and documents."""
    ht = S.ht
    s = S.str("s", 1, 1, cs=TEXT)
    specs = [N("J", name="A", kids=[N("T", s=s), D(1)]),
             N("J", name="B", props=[("t", node(N("B", name="p", kids=[D(2)])))],
               kids=[N("X", aslist=True, keep=True, kids=[D(3), N("B", name="p")])])]
    xs = [build(S, n) for n in specs]
    outer = ht.div(xs[0], ht.span("q", xs[1]), xs[0])
    for x in xs:
        warm(x, S)
    before = [snap(S, x) for x in xs]
    texts = []
    for f in (lambda: ht.TagList(outer).render(), lambda: outer.render(),
              lambda: ht.HTMLDocument(outer).render(), lambda: outer.render()):
        r = f()
        names = [d.name for d in r["dependencies"]]
        for x in ("react", "react-dom", "pd1", "pd2", "pd3"):
            S.check(names.count(x) == 1, "documents list every dependency once")
        texts.append(r["html"])
        for x, b in zip(xs, before):
            same(S, b, snap(S, x), "rendering leaves the components unchanged")
    S.check_eq(texts[1], texts[3], "rendering again gives the same text")
    for n, x in zip(specs, xs):
        verify(S, n, x)


def r_large(S, sh):
    """Many children, props, items or levels; one arbitrary text among them."""
    w = sh["w"]
    n = 120 if w in ("kids", "props", "list") else 40
    s = S.str("s", 1, cs=TEXT)
    at = S.pick("at", (0, 9, n // 2, n - 1))
    if w == "kids":
        x = N("J", name="Foo", kids=[
            N("T", s=s) if i == at else N("T", s="k%d" % i) if i % 3 == 0 else D(i) if i % 3 == 1 else
            N("B", name="p", kids=[N("M", mark=i)]) for i in range(n)])
    elif w == "props":
        x = N("J", name="Foo", props=[
            ("p%d" % i, N("str", v=s) if i == at else N("num", v=i) if i % 3 else
             node(N("B", name="b", kids=[D(i)]))) for i in range(n)])
    elif w == "list":
        items = [N("str", v=s) if i == at else N("num", v=i) if i % 2 else N("str", v="v") for i in range(n)]
        x = N("J", name="Foo", props=[("a", N(S.pick("c", ("list", "tuple")), items=items)),
                                      ("b", N("dict", items=[("k%d" % i, v) for i, v in enumerate(items)]))])
    elif w == "nest":
        v = N("str", v=s)
        for i in range(n):
            v = N("list", items=[v, N("num", v=i)]) if i % 2 else N("dict", items=[("k", v)])
        x = N("J", name="Foo", props=[("a", v)])
    elif w == "deep":
        x = N("J", name="In", kids=[N("T", s=s)])
        for i in range(n):
            if i % 4 == 3:
                x = N("J", name="P%d" % i, props=[("a", node(x))], kids=[D(i)])
            else:
                x = N("J" if i % 2 else "B", name="L%d" % i, kids=[x, N("T", s="t")])
        x = N("J", name="Foo", kids=[x])
    elif w == "tags":
        x = N("B", name="b", kids=[N("T", s=s), N("J", name="K", props=[("q", N("str", v=s))])])
        for i in range(n):
            x = N("B", name="div", props=[("id", N("str", v="i%d" % i))], kids=[x, D(i)])
        x = N("J", name="Foo", kids=[x])
    else:
        x = N("B", name="b", kids=[N("T", s=s)])
        for i in range(n // 2):
            x = N("B", name="i", kids=[N("X", aslist=i % 2 == 0, keep=False, kids=[x, D(i)] if i % 2 == 0
                                        else [x])])
        x = N("J", name="Foo", kids=[x])
    verify(S, x)


def r_share(S, sh):
    """One object at several places."""
    ht, j = S.ht, J(S)
    s = S.str("s", 1, 1, cs=TEXT)
    sub = N("J", name="Sub", props=[("p", N("list", items=[N("str", v=s)]))],
            kids=[D(1), N("X", aslist=True, keep=True, kids=[N("T", s=s), D(2), N("T", s="2")])])
    tagn = N("B", name="p", kids=[sub, N("X", aslist=False, keep=True, kids=[N("B", name="i", kids=[D(3)])])])
    n = N("J", name="Top", props=[("a", node(sub)), ("b", node(tagn))], kids=[sub, tagn, sub])
    rs = build(S, sub)
    rt = ht.Tag("p", rs, build(S, tagn.kids[1]))
    x = j.JSXTag("Top", rs, rt, rs, a=rs, b=rt)
    verify(S, n, x, times=3)
    verify(S, sub, rs)
