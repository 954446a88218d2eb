"""C15  Attribute names and values are normalised and merged in argument order."""
from symx import pat
from symx import expr as X
from props import common as C

ENCODED = ["TagAttrDict.*", "Tag.__init__", "consolidate_attrs", "Tag.get_html_string",
           "HTML.__add__", "HTML.__radd__", "_equals_impl"]
BOUNDS = {
    "quick": "up to 4 attribute arguments (dicts and keywords, in every split) with names that "
             "are any strings of up to 3 characters over letters, '_' and '-' (collisions "
             "decided by the solver; a pool of colliding spellings beyond two arguments) and values of every type (strings of up to 2 symbolic "
             "characters, HTML(), int +-9999, listed floats, True/False/None), followed by up to "
             "2 updates or item assignments; up to 14 attributes; names up to 10 characters alone"
             "; the usual attribute names (class_, for_, data_x, aria_label, ...) built, "
             "updated and set; 150 attributes; attributes reused for other tags",
    "thorough": "5 arguments and 3 later operations",
}
COVER = ["collision", "distinct"]
NC = C.X.cs_of("abAx_-")
KINDS = "shitfn"        # str html int True False None
VIA = ("tag", "attrdict", "consolidate")


def shapes(tier):
    out = []
    big = tier == "thorough"
    for via in VIA:
        for split in ("kk", "dd", "dk", "D", "dK", "Dk"):
            for ks in ("ss", "sh", "hs", "sn", "ns", "it", "ti", "sf", "hh", "st", "ts", "ff", "is",
                       "hi", "th"):
                out.append(dict(kind="pair", via=via, split=split, ks=ks))
        for ks in ("sss", "shs", "hsh", "snt", "tsi", "ssn", "nss", "hss", "ssh", "ist"):
            for split in ("ddd", "ddk", "dkk", "Dd", "dD", "Ddk"):
                out.append(dict(kind="multi", via=via, split=split, ks=ks))
        for ks in ("ssss", "shsh", "snts", "tsih"):
            out.append(dict(kind="multi", via=via, split="dDk" if ks != "ssss" else "dddk", ks=ks))
    if big:
        for ks in ("sssss", "shsis", "tnsht"):
            for split in ("ddddk", "dDDk"):
                out.append(dict(kind="multi", via="tag", split=split, ks=ks))
    for op in ("update1", "updatekw", "update2", "set", "setn", "updateNone", "upd+set"):
        for ks in ("ss", "sh", "hs", "si", "st", "sn", "sf"):
            out.append(dict(kind="later", op=op, ks=ks))
    out += [dict(kind="name"), dict(kind="many", n=14), dict(kind="many", n=150), dict(kind="rebuild"), dict(kind="vals"),
            dict(kind="pool"), dict(kind="hist", n=3 if big else 2), dict(kind="reuse"),
            dict(kind="spaces"), dict(kind="real", op="new"), dict(kind="real", op="upd"),
            dict(kind="real", op="set")]
    return out


REAL = ("data_x", "data-x", "aria_label", "class_", "for_", "http_equiv", "xlink:href", "style", "id",
        "onclick", "value", "hidden", "async_", "viewBox", "accept_charset")


def norm(x):
    if x.endswith("_"):
        x = x[:-1]
    return x.replace("_", "-")


def value(S, k, nm):
    ht = S.ht
    if k == "s":
        return S.str(nm, 2)
    if k == "h":
        return ht.HTML(S.str(nm, 2))
    if k == "i":
        return S.int(nm, -9999, 9999)
    return {"t": True, "f": False, "n": None}[k]


def loose_attr(s):
    """Each character raw or as a reference (how plain text is escaped is C03's business)."""
    out = []
    from symx import strs
    for t in strs.toks_of(s):
        if type(t) is str:
            for c in t:
                out.append(strs.talt([(True, (c,))] + [(True, (r,)) for r in pat.REFS[c]])
                           if c in pat.REFS else c)
        elif type(t) is strs.Ch:
            alts = [(True, (t,))]
            for c in pat.META_ATTR:
                here = X.In(t.e, ((ord(c), ord(c)),))
                if here is not False:
                    alts += [(here, (r,)) for r in pat.REFS[c]]
            out.append(strs.talt(alts))
        elif type(t) is strs.It:
            out.extend(strs.tit(t.c, loose_attr(strs.mk(t.a)) if not isinstance(t.a, str) else t.a,
                                loose_attr(strs.mk(t.b))))
        else:
            out.append(t)
    return tuple(out)


class Model:
    """Ordered names with their values, by the property text."""

    def __init__(self):
        self.items = []         # [name, parts]

    def call(self, pairs):
        new = []
        for n, v in pairs:
            if v is None or v is False:
                continue
            n = norm(n)
            for it in new:
                if it[0] == n:
                    it[1].append(v)
                    break
            else:
                new.append([n, [v]])
        for n, parts in new:
            for it in self.items:
                if it[0] == n:
                    it[1] = parts
                    break
            else:
                self.items.append([n, parts])


def text_of(ht, v):
    if v is True:
        return ""
    if isinstance(v, ht.HTML):
        return v.as_string()
    return v if isinstance(v, str) else str(v)


def verify(S, attrs, model, label):
    ht = S.ht
    got = list(attrs.items())
    S.check(len(got) == len(model.items), label + ": number of attributes")
    if len(got) != len(model.items):
        return
    for (n, v), (mn, parts) in zip(got, model.items):
        S.check_eq(n, mn, label + ": name and order")
        mixed = any(isinstance(p, ht.HTML) for p in parts)
        S.check(isinstance(v, ht.HTML) if mixed else isinstance(v, str),
                label + ": value type")
        if mixed and not isinstance(v, ht.HTML) or not mixed and not isinstance(v, str):
            continue
        s = v.as_string() if isinstance(v, ht.HTML) else v
        p = ()
        for i, x in enumerate(parts):
            q = text_of(ht, x)
            p += ((" ",) if i else ()) + (
                loose_attr(q) if mixed and not isinstance(x, ht.HTML) else pat.lit(q))
        S.check_match(s, p, label + ": value")


def observe(S, attrs):
    ht = S.ht
    S.observe([[k, v.as_string() if isinstance(v, ht.HTML) else v] for k, v in attrs.items()])


def give(S, split, pairs):
    """Distribute the pairs over positional dicts and keywords.
    d: dict of one pair, D: dict of two, k/K: all/remaining keywords."""
    args, kw, order = [], {}, []
    i = 0
    for c in split:
        if c in "dD":
            n = 1 if c == "d" else 2
            part = pairs[i:i + n]
            i += n
            d = {}
            for a, b in part:
                if any(bool(a == z) for z in d):
                    return None     # a dict literal cannot repeat a key
                d[a] = b
            args.append(d)
            order += part
        else:
            n = 1 if c == "k" else len(pairs)
            part = pairs[i:i + n]
            i += n
            for a, b in part:
                if any(bool(a == z) for z in kw):
                    return None
                kw[a] = b
            order += part
    for a, b in pairs[i:]:
        if any(bool(a == z) for z in kw):
            return None
        kw[a] = b
        order.append((a, b))
    return args, kw, order


def build(S, via, args, kw):
    ht = S.ht
    if via == "tag":
        return ht.Tag("div", *args, **kw).attrs
    if via == "attrdict":
        return type(ht.Tag("div").attrs)(*args, **kw)
    a, ch = ht.consolidate_attrs(*args, **kw)
    S.check(ch == [] and isinstance(a, dict), "consolidate_attrs: a dict and no children")
    return a


def cover(S, ns):
    col = False
    for i, a in enumerate(ns):
        for b in ns[:i]:
            if bool(norm(a) == norm(b)):
                col = True
    S.covers("collision" if col else "distinct")


def names(S, n, ln=3):
    ns = [S.str("n%d" % i, ln, 1, cs=NC) for i in range(n)]
    for x in ns:
        S.assume(x != "_")
    return ns


def run(S, sh):
    ht = S.ht
    k = sh["kind"]
    if k in ("pair", "multi"):
        ks = sh["ks"]
        if k == "pair" and sh["via"] == "tag" and ks in ("ss", "sh", "sn"):
            ns = names(S, 2, 4 if S.tier == "thorough" else 3)
        else:
            ns = [S.pick("n%d" % i, ["x", "x_", "y-z", "y_z"]) for i in range(len(ks))]
        pairs = [(n, value(S, c, "v%d" % i)) for i, (n, c) in enumerate(zip(ns, ks))]
        g = give(S, sh["split"], pairs)
        if g is None:
            return
        args, kw, order = g
        cover(S, ns)
        at = build(S, sh["via"], args, kw)
        m = Model()
        m.call(order)
        verify(S, at, m, "attributes")
        observe(S, at)
    elif k == "later":
        ks = sh["ks"]
        ns = names(S, 2)
        a, b = value(S, ks[0], "v0"), value(S, ks[1], "v1")
        op = sh["op"]
        d = ht.Tag("div", {ns[0]: a, "fix": "0"}).attrs
        m = Model()
        m.call([(ns[0], a), ("fix", "0")])
        if op == "update1":
            d.update({ns[1]: b})
            m.call([(ns[1], b)])
        elif op == "updatekw":
            d.update(**{ns[1]: b})
            m.call([(ns[1], b)])
        elif op == "update2":
            d.update({ns[1]: b}, {ns[0]: "w"}, **{"fix": b})
            m.call([(ns[1], b), (ns[0], "w"), ("fix", b)])
        elif op == "set":
            d[ns[1]] = b
            m.call([(ns[1], b)])
        elif op == "setn":
            d[ns[1]] = b
            d["new_"] = a
            d[ns[1]] = b
            m.call([(ns[1], b)])
            m.call([("new_", a)])
            m.call([(ns[1], b)])
        elif op == "updateNone":
            d.update({ns[1]: None}, **{"fix": False})
            d[ns[1]] = None
            d.update()
            m.call([(ns[1], None)])
        else:
            d.update({ns[1]: b}, {ns[1]: a})
            d[ns[0]] = b
            m.call([(ns[1], b), (ns[1], a)])
            m.call([(ns[0], b)])
        verify(S, d, m, "after " + op)
        observe(S, d)
    elif k == "name":
        n = S.str("n", 10, 1, cs=C.X.cs_of("abAx_-:.9"))
        S.assume(n != "_")
        v = S.str("v", 1)
        m = Model()
        m.call([(n, v)])
        for at in (ht.Tag("div", {n: v}).attrs, ht.consolidate_attrs({n: v})[0]):
            verify(S, at, m, "name normalisation")
        d = type(ht.Tag("p").attrs)()
        d[n] = v
        verify(S, d, m, "name normalisation by item assignment")
        observe(S, d)
        u = S.str("u", 1)
        d.update({n: u})
        m.call([(n, u)])
        verify(S, d, m, "name normalisation by update")
    elif k == "pool":
        pool = ["x", "x_", "x__", "a_b", "a-b", "a_b_", "_a", "-", "class_", "class", "aB_c", "__x",
                "data_a_b", "x-_"]
        ns = [S.pick("n%d" % i, pool) for i in range(3)]
        m = Model()
        pairs = [(n, "v%d" % i) for i, n in enumerate(ns)]
        m.call(pairs)
        verify(S, ht.Tag("div", *[{n: v} for n, v in pairs]).attrs, m, "colliding raw names")
        verify(S, ht.consolidate_attrs(*[{n: v} for n, v in pairs])[0], m, "colliding raw names")
    elif k == "many":
        at = C.spot(S, sh["n"])
        n = S.str("n", 3, 1, cs=NC)
        S.assume(n != "_")
        v = S.str("v", 1)
        pairs = [("k%d" % (i * 11 % sh["n"]), "w%d" % i) if i != at else (n, v) for i in range(sh["n"])]
        m = Model()
        m.call(pairs + [("k3", "again"), (n, "more")])
        verify(S, ht.Tag("div", dict(pairs[:7]), dict(pairs[7:]), {"k3": "again"},
                         **{n: "more"}).attrs, m, "many attributes")
        d = ht.Tag("div", *[{a: b} for a, b in pairs]).attrs
        d.update({"k3": "z"}, zz="1")
        m = Model()
        m.call(pairs)
        m.call([("k3", "z"), ("zz", "1")])
        verify(S, d, m, "many attributes then update")
    elif k == "vals":
        items = [0, 1, -1, 0.0, -0.0, 1.0, 1.5, float("nan"), float("inf"), 10**25, True, False,
                 None, "", "x", ht.HTML("<"), ht.HTML("")]
        a, b = S.pick("a", items), S.pick("b", items)
        m = Model()
        m.call([("x", a), ("x", b), ("y", b)])
        verify(S, ht.Tag("div", {"x": a}, x=b, y=b).attrs, m, "value normalisation")
        d = ht.Tag("div", x="old").attrs
        d["x"] = a
        d["y_"] = b
        m = Model()
        m.call([("x", "old")])
        m.call([("x", a)])
        m.call([("y_", b)])
        verify(S, d, m, "value normalisation by item assignment")
    elif k == "rebuild":
        ns = [S.pick("n%d" % i, ["x", "x_", "y_z"]) for i in range(2)] + ["x"]
        ks = [S.pick("k%d" % i, list("shtn")) for i in range(2)] + [S.pick("k2", list("sh"))]
        vs = [value(S, c, "v%d" % i) for i, c in enumerate(ks)]
        t = S.str("t", 1)
        kids = [t, ht.Tag("b"), [t, None, ["q"]], 5, ht.HTML(t), None]
        args = [kids[0], {ns[0]: vs[0]}, kids[1], kids[2], {ns[1]: vs[1]}] + kids[3:]
        copy = [dict(x) if isinstance(x, dict) else x for x in args]
        kw = {ns[2]: vs[2]}
        at, ch = ht.consolidate_attrs(*args, **kw)
        S.check(isinstance(at, dict), "consolidate_attrs returns a dict")
        S.check(len(ch) == len(kids) and all(a is b for a, b in zip(ch, kids)),
                "consolidate_attrs returns the non-dict arguments unchanged")
        S.check(all(len(a) == len(b) for a, b in zip(args, copy) if isinstance(b, dict)),
                "consolidate_attrs leaves its arguments alone")
        a = ht.Tag("div", *args, **kw)
        b = ht.Tag("div", at, *ch)
        S.check(a == b, "rebuilding equals building directly")
        S.check_eq(str(a), str(b), "rebuilding renders like building directly")
        m = Model()
        m.call([(ns[i], vs[i]) for i in range(3)])
        verify(S, at, m, "consolidated attributes")
        c = ht.Tag("div", *ch, **at)
        S.check(a == c, "rebuilding with keywords equals building directly")
        n0 = len(a.attrs)
        at["added"] = "1"
        S.check(len(b.attrs) == n0 and len(a.attrs) == n0, "the returned dict is independent")
    elif k == "hist":
        d = ht.Tag("div", {"a": "0"}).attrs
        m = Model()
        m.call([("a", "0")])
        for i in range(sh["n"]):
            n = S.pick("n%d" % i, ["a", "a_", "b_c", "b-c"])
            n2 = S.pick("m%d" % i, ["a", "b_c_"])
            v = value(S, S.pick("k%d" % i, list("shtn")), "v%d" % i)
            op = S.pick("op%d" % i, ["set", "upd", "upd2"])
            if op == "set":
                d[n] = v
                m.call([(n, v)])
            elif op == "upd":
                d.update({n: v})
                m.call([(n, v)])
            else:
                d.update({n: v}, {n2: "w"})
                m.call([(n, v), (n2, "w")])
        verify(S, d, m, "history of updates")
        observe(S, d)
    elif k == "reuse":
        # argument dicts are read, never changed, and may be reused
        v, w = S.str("v", 1), S.str("w", 1)
        src = {"a_b": v, "a-b": w, "c_": None}
        t1 = ht.Tag("div", src, src)
        t2 = ht.Tag("div", src)
        m = Model()
        m.call([("a_b", v), ("a-b", w)])
        verify(S, t2.attrs, m, "reused attribute dict")
        m = Model()
        m.call([("a_b", v), ("a-b", w), ("a_b", v), ("a-b", w)])
        verify(S, t1.attrs, m, "attribute dict given twice")
        S.check(list(src) == ["a_b", "a-b", "c_"], "argument dict unchanged")
        t3 = ht.Tag("div", t2.attrs)
        t3.attrs["z"] = v
        S.check(len(t2.attrs) == 1 and len(t3.attrs) == 2, "attribute maps are not shared")
        t2.attrs.update(t2.attrs)
        m = Model()
        m.call([("a-b", v)])
        S.check(len(t2.attrs) == 1, "updating with itself")
    elif k == "real":
        # names as they are used
        a, b = S.pick("a", REAL), S.pick("b", REAL)
        v, w = S.str("v", 1), S.str("w", 1)
        w = ht.HTML(w) if S.flag("h") else w
        m = Model()
        if sh["op"] == "new":
            pairs = [(a, v), ("id", "i"), (b, w), (a, None), ("data_q", True), (b, v)]
            m.call(pairs)
            for at in (ht.Tag("div", *[{x: y} for x, y in pairs]).attrs,
                       ht.consolidate_attrs(*[{x: y} for x, y in pairs])[0]):
                verify(S, at, m, "attributes of usual names")
            return
        d = ht.Tag("input", {a: v, "title": "t"}, {b: w}).attrs
        m.call([(a, v), ("title", "t"), (b, w)])
        if sh["op"] == "upd":
            d.update({b: v, "title": w}, {a: "z"})
            d.update({a: None, b: False})
            m.call([(b, v), ("title", w), (a, "z")])
        else:
            d[b] = v
            d[a] = w
            d[a] = None
            m.call([(b, v)])
            m.call([(a, w)])
        verify(S, d, m, "attributes of usual names, changed")
    elif k == "spaces":
        # values are joined as given: no trimming, no dropping of repeated or empty ones
        v = S.str("v", 2, cs=C.X.cs_of(" \t\nab;"))
        w = S.str("w", 2, cs=C.X.cs_of(" \t\nab;"))
        nm = S.pick("nm", ["class", "style", "x", "class_"])
        m = Model()
        m.call([(nm, v), (nm, w), (nm, v)])
        verify(S, ht.Tag("div", {nm: v}, {nm: w}, **{nm: v}).attrs, m, "values joined as given")
