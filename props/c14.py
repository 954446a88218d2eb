"""C14  Child lists hold only normalised nodes after any sequence of operations."""
from symx import pat
from props import common as C

ENCODED = ["TagList.*", "collections.UserList.*", "_tagchilds_to_tagnodes", "flatten",
           "_flatten_recurse", "is_tag_node", "is_tag_child", "Tag.__init__", "Tag.append",
           "Tag.extend", "Tag.insert"]
BOUNDS = {
    "quick": "every sequence of 2 operations of the 14 listed, each with every argument of the "
             "listed shapes (leaves: string of up to 2 symbolic characters, int in +-10^6, "
             "floats, None, Tag, HTML(), dependency, metadata, tagifiable, _repr_html_ object, "
             "invalid objects; nestings of lists, tuples and TagLists up to depth 3, chains to "
             "depth 12, fan-out 14); sequences of 5 operations with 4 argument shapes; insertion "
             "index -20..20"
             "; 150 items and 70 levels; subclasses of str, list and TagList; lists added to "
             "themselves; iterators consumed by every way in",
    "thorough": "sequences of 3 operations with every argument",
}
COVER = ["invalid", "ok"]

OPS = ("append", "append2", "extend", "extendgen", "insert", "add", "radd", "iadd", "slice", "mul",
       "rmul", "imul", "add2", "setslice")
LEAVES = ("s", "i", "f", "None", "tag", "html", "dep", "meta", "x", "r", "bad")
NEST = ("s", "i", "None", "html", "tag", "bad", "[]", "[s]", "(i,None)", "T(s)", "[s,[i,(t)]]",
        "[s,bad]", "[[s,[bad]],i]", "T(s,[i])+", "(h)", "f", "x", "r", "dep")


def shapes(tier):
    out = [dict(kind="ctor", w=w) for w in ("list", "tag")]
    for a in OPS:
        for b in OPS:
            out.append(dict(kind="seq", ops=[a, b], n=len(NEST)))
    for i in range(8):
        out.append(dict(kind="long", i=i))
    out += [dict(kind="tagops", op=o) for o in ("append", "append2", "extend", "insert", "iadd")]
    out += [dict(kind="deep"), dict(kind="wide", n=14), dict(kind="wide", n=150), dict(kind="pred"), dict(kind="alias"),
            dict(kind="sub"), dict(kind="strings"), dict(kind="steps")]
    out += [dict(kind="iter", op=o) for o in ("extend", "add", "radd", "iadd", "tagextend")]
    if tier == "thorough":
        for a in OPS:
            for b in OPS:
                for c in ("append", "extend", "insert", "add", "radd", "iadd", "slice"):
                    out.append(dict(kind="seq", ops=[a, b, c], n=len(NEST)))
    return out


BAD = object()


def leaf(S, k, nm):
    ht = S.ht
    if k == "s":
        return S.str(nm, 2)
    if k == "i":
        return S.int(nm, -10**6, 10**6)
    if k == "f":
        return S.pick(nm + "f", [1.5, -0.0, 3.0, float("inf"), 1e-9, float("nan"), 1e16, 1e22, 123456789.123456789])
    if k == "None":
        return None
    if k in ("tag", "t"):
        return ht.Tag("b")
    if k in ("html", "h"):
        return ht.HTML(S.str(nm, 2))
    if k == "dep":
        return ht.HTMLDependency("a", "1")
    if k == "meta":
        return ht.MetadataNode()
    if k == "x":
        return C.Expander(lambda: "x")
    if k == "r":
        return C.ReprObj("r")
    if k == "bad":
        return BAD
    raise AssertionError(k)


def arg(S, k, nm):
    """(real argument, is invalid)"""
    ht = S.ht
    if k == "[]":
        return [], False
    if k == "[s]":
        return [leaf(S, "s", nm)], False
    if k == "(i,None)":
        return (leaf(S, "i", nm), None), False
    if k == "(h)":
        return (leaf(S, "h", nm),), False
    if k == "T(s)":
        return ht.TagList(leaf(S, "s", nm)), False
    if k == "[s,[i,(t)]]":
        return [leaf(S, "s", nm), [leaf(S, "i", nm + "i"), (leaf(S, "t", nm),)]], False
    if k == "[s,bad]":
        return [leaf(S, "s", nm), BAD], True
    if k == "[[s,[bad]],i]":
        return [[leaf(S, "s", nm), [BAD]], 3], True
    if k == "T(s,[i])+":
        return [ht.TagList(leaf(S, "s", nm), [leaf(S, "i", nm + "i")]), (None, ["z"])], False
    return leaf(S, k, nm), k == "bad"


def flat(x, out, top=True):
    """Reference flattening."""
    if isinstance(x, (list, tuple)) or type(x).__name__ == "TagList":
        for y in x:
            flat(y, out)
    elif x is None:
        pass
    elif isinstance(x, (int, float)):
        out.append(str(x))
    else:
        out.append(x)
    return out


def verify(S, tl, model, label):
    ht = S.ht
    items = list(tl)
    S.check(len(items) == len(model), label + ": number of children")
    if len(items) != len(model):
        return
    for a, b in zip(items, model):
        if isinstance(b, str):
            S.check(isinstance(a, str), label + ": string child stays a string")
            if isinstance(a, str):
                S.check_eq(a, b, label + ": string child")
        elif isinstance(b, ht.HTML):
            S.check(isinstance(a, ht.HTML), label + ": HTML() child stays HTML()")
            if isinstance(a, ht.HTML):
                S.check_eq(a.as_string(), b.as_string(), label + ": HTML() child")
        else:
            S.check(a is b, label + ": same object")
        S.check(ht.is_tag_node(a), label + ": is_tag_node holds")


def run_op(S, tl, model, op, k, nm):
    """Returns (new list, new model)."""
    ht = S.ht
    if op == "slice":
        a = S.pick(nm + "a", [None, 0, 1, -1, 3])
        b = S.pick(nm + "b", [None, 0, 1, -1, 2, 9])
        r = tl[a:b]
        S.check(isinstance(r, ht.TagList), "slice yields a TagList")
        return r, model[a:b]
    if op in ("mul", "rmul", "imul"):
        n = S.pick(nm + "n", [0, 1, 2, 3, -1])
        if op == "mul":
            r = tl * n
        elif op == "rmul":
            r = n * tl
        else:
            r = tl
            r *= n
        S.check(isinstance(r, ht.TagList), "repetition yields a TagList")
        return r, model * n
    v, bad = arg(S, k, nm)
    before = list(tl)
    seqlike = isinstance(v, (list, tuple, ht.TagList)) or isinstance(v, (str, ht.HTML))
    if op in ("extend", "extendgen", "add", "radd", "iadd", "add2", "setslice") and not seqlike:
        # these take an iterable of children; wrap single values
        v = [v]
    if op == "radd" and isinstance(v, ht.HTML):
        v = [v]         # HTML + x is HTML's own business (C04)
    add = flat(v, [])
    new = None
    try:
        if op == "append":
            r = tl.append(v)
            new = model + add
        elif op == "append2":
            r = tl.append(v, "k", [v])
            new = model + add + ["k"] + add
        elif op == "extend":
            r = tl.extend(v)
            new = model + add
        elif op == "extendgen":
            r = tl.extend(y for y in (v, "q"))
            new = model + add + ["q"]
        elif op == "insert":
            i = S.pick(nm + ".at", [0, 1, -1, 2, -20, 20] if nm == "v0" else [0, -1, 2]) if k != "s" or nm != "v0" else S.int(nm + ".idx", -9, 9)
            r = tl.insert(i, v)
            i = int(i)
            m = list(model)
            m[i:i] = add
            new = m
        elif op == "add":
            tl2 = tl + v
            S.check(len(list(tl)) == len(before), "+ leaves its operand alone")
            tl, new = tl2, model + add
        elif op == "add2":
            tl, new = tl + v + v, model + add + add
        elif op == "radd":
            tl, new = v + tl, add + model
        elif op == "iadd":
            tl += v
            new = model + add
        elif op == "setslice":
            tl, new = ht.TagList(tl[:1], v, tl[1:]), model[:1] + add + model[1:]
    except TypeError:
        S.check(bad, op + " rejects only unsupported types")
        S.covers("invalid")
        after = list(tl)
        S.check(len(after) == len(before) and all(p is q for p, q in zip(after, before)),
                op + " leaves the list unchanged when it raises")
        return tl, model
    S.check(not bad, op + " rejects an argument of unsupported type")
    S.check(isinstance(tl, ht.TagList), op + " yields a TagList")
    S.covers("ok")
    if bad:
        # nothing more to say about a list that took an invalid object
        return tl, [x for x in tl]
    return tl, new


def run(S, sh):
    ht = S.ht
    k = sh["kind"]
    if k == "ctor":
        ks = [S.pick("k%d" % i, list(NEST)) for i in range(2)]
        vs = [arg(S, x, "v%d" % i) for i, x in enumerate(ks)]
        bad = any(b for _, b in vs)
        f = ht.TagList if sh["w"] == "list" else lambda *a: ht.Tag("div", *a).children
        r, exc = S.attempt(f, *[v for v, _ in vs])
        if bad:
            S.check(isinstance(exc, TypeError), "constructor rejects unsupported types")
            return
        if exc is not None:
            raise exc
        verify(S, r, flat([v for v, _ in vs], []), "constructor")
        S.observe([x if isinstance(x, str) else "o" for x in r])
    elif k == "seq":
        tl, model = ht.TagList("a", ht.Tag("i")), None
        model = list(tl)
        for i, op in enumerate(sh["ops"]):
            kk = "s"
            if op not in ("slice", "mul", "rmul", "imul"):
                kk = S.pick("k%d" % i, list(NEST))
            tl, model = run_op(S, tl, model, op, kk, "v%d" % i)
        verify(S, tl, model, "after " + ",".join(sh["ops"]))
        S.observe([x if isinstance(x, str) else "o" for x in tl])
    elif k == "long":
        import random
        rng = random.Random(sh["i"])
        tl = ht.TagList()
        model = []
        for j in range(6):
            op = rng.choice(OPS)
            kk = S.pick("k%d" % j, ["s", "[s,[i,(t)]]", "[[s,[bad]],i]"]) if j in (1, 4) else "s"
            tl, model = run_op(S, tl, model, op, kk, "v%d" % (j + 2))
            verify(S, tl, model, "history")
    elif k == "tagops":
        op = sh["op"]
        d = ht.Tag("div", "a", ht.Tag("i"))
        model = list(d.children)
        for j in range(2):
            kk = S.pick("k%d" % j, list(NEST))
            v, bad = arg(S, kk, "v%d" % j)
            if op in ("extend", "iadd") and not isinstance(v, (list, tuple, ht.TagList, str, ht.HTML)):
                v = [v]
            add = flat(v, [])
            before = list(d.children)
            i = len(model)
            try:
                if op == "append":
                    d.append(v)
                elif op == "append2":
                    d.append("k", v)
                    add = ["k"] + add
                elif op == "extend":
                    d.extend(v)
                elif op == "insert":
                    i = S.pick("i%d" % j, [0, 1, -1, 20])
                    d.insert(i, v)
                elif op == "iadd":
                    d.children += v
            except TypeError:
                S.check(bad, "Tag.%s rejects only unsupported types" % op)
                S.check(len(before) == len(d.children) and
                        all(p is q for p, q in zip(before, d.children)),
                        "Tag.%s leaves the tag unchanged when it raises" % op)
                return
            S.check(not bad, "Tag.%s rejects unsupported types" % op)
            if bad:
                return
            model[i:i] = add
        verify(S, d.children, model, "Tag." + op)
    elif k == "deep":
        s, v = S.str("s", 1), S.int("v", -9, 9)
        x = [s, v]
        depth = S.pick("d", [*range(13), 70])
        for i in range(depth):
            x = [x, None] if i % 3 == 0 else (s, x) if i % 3 == 1 else ht.TagList(x, [v])
        model = flat(x, [])
        verify(S, ht.TagList(x), model, "deep nesting")
        verify(S, ht.Tag("p", x).children, model, "deep nesting")
        t = ht.TagList()
        t.extend([x])
        t.insert(0, x)
        verify(S, t, model + model, "deep nesting")
        y = [x, BAD]
        for i in range(depth):
            y = (y,)
        _, exc = S.attempt(t.append, y)
        S.check(isinstance(exc, TypeError), "invalid object at depth")
        verify(S, t, model + model, "unchanged after invalid object at depth")
    elif k == "wide":
        at = C.spot(S, sh["n"])
        what = S.pick("w", ["s", "i", "None", "html", "[s,[i,(t)]]", "bad"])
        v, bad = arg(S, what, "v")
        x = [v if i == at else ["k%d" % i, i, ht.Tag("b"), None][i % 4] for i in range(sh["n"])]
        t = ht.TagList("z")
        for f in (lambda: t.extend(x), lambda: t.append(*x), lambda: t.insert(1, x),
                  lambda: ht.TagList(*x)):
            n = len(t)
            r, exc = S.attempt(f)
            if bad:
                S.check(isinstance(exc, TypeError) and len(t) == n, "invalid object in a wide list")
            elif exc is not None:
                raise exc
        if not bad:
            m = flat(x, [])
            verify(S, t, ["z"] + m + m + m if False else ["z"] + m + m + m, "wide list")
    elif k == "pred":
        what = S.pick("w", list(NEST) + ["bool", "meta", "tuple0", "npint"])
        if what == "bool":
            v, bad = True, False
        elif what == "meta":
            v, bad = ht.MetadataNode(), False
        elif what == "tuple0":
            v, bad = (), False
        elif what == "npint":
            v, bad = 10**30, False
        else:
            v, bad = arg(S, what, "v")
        _, exc = S.attempt(ht.TagList, v)
        if exc is None:
            S.check(ht.is_tag_child(v), "is_tag_child accepts what the operations accept")
        if v is BAD:
            S.check(not ht.is_tag_child(v), "is_tag_child rejects an unsupported object")
            S.check(not ht.is_tag_node(v), "is_tag_node rejects an unsupported object")
        S.check((exc is not None) == bad, "constructor accepts exactly the supported types")
        for w in (set(), {}, b"x", 1j, Ellipsis, iter(()), int, len):
            _, exc = S.attempt(ht.TagList, w)
            S.check(isinstance(exc, TypeError), "unsupported type raises TypeError")
            t = ht.TagList("a")
            _, exc = S.attempt(t.append, "b", w)
            S.check(isinstance(exc, TypeError) and len(t) == 1, "unsupported type raises TypeError")
    elif k == "alias":
        # arguments keep their own identity: nothing is shared or changed
        s = S.str("s", 1)
        src = [s, ["n", 1], None]
        tl = ht.TagList(s, "x")
        a = ht.TagList(src, tl)
        b = ht.TagList(tl)
        c = a + tl
        d = tl[:]
        e = tl * 1
        S.check(len(src) == 3 and src[1] == ["n", 1], "arguments unchanged")
        tl.append("later")
        src.append("later")
        a.append("own")
        verify(S, a, [s, "n", "1", s, "x", "own"], "independent of its arguments")
        verify(S, b, [s, "x"], "independent of its arguments")
        verify(S, c, [s, "n", "1", s, "x", s, "x"], "independent of its operands")
        verify(S, d, [s, "x"], "slices are independent")
        verify(S, e, [s, "x"], "repetitions are independent")
        tl2 = ht.TagList(s)
        tl2.extend(tl2)
        verify(S, tl2, [s, s], "extending a list with itself")
        tl2 += tl2
        verify(S, tl2, [s, s, s, s], "adding a list to itself in place")
        tl2.insert(1, tl2)
        verify(S, tl2, [s] * 8, "inserting a list into itself")
    elif k == "sub":
        class L2(list):
            pass

        class T2(ht.TagList):
            pass
        import collections
        P = collections.namedtuple("P", "x y")
        s = S.str("s", 1)
        x = S.pick("x", [L2([s]), T2(s), P(s, None), [T2(s, L2())]])
        verify(S, ht.TagList(x, "e"), [s, "e"], "subclasses are flattened")
        t = ht.TagList("a")
        t.extend(x)
        t.append(x)
        t.insert(0, x)
        verify(S, t, [s, "a", s, s], "subclasses are flattened")
        q = C.Str2("ab")
        verify(S, ht.TagList(q) + q, ["ab", "ab"], "str subclasses are kept whole")
    elif k == "iter":
        # one-shot iterables of children
        op = sh["op"]
        s, n = S.str("s", 2), S.int("n", -99, 99)
        items = [s, None, [n, (s,)], ht.Tag("b"), S.pick("last", [None, "z", BAD, 1.5])]
        bad = items[-1] is BAD
        it = {"gen": lambda: (y for y in items), "iter": lambda: iter(tuple(items)),
              "map": lambda: map(lambda y: y, items), "rev": lambda: reversed(items[::-1]),
              "values": lambda: dict(enumerate(items)).values()}[
                  S.pick("it", ["gen", "iter", "map", "rev", "values"])]()
        add = flat(items, [])
        tl = ht.TagList("a", ht.Tag("i"))
        model = list(tl)
        d = ht.Tag("p", *model)
        keep = tl

        def go():
            if op == "extend":
                tl.extend(it)
                return tl
            if op == "add":
                return tl + it
            if op == "radd":
                return it + tl
            if op == "iadd":
                r = tl
                r += it
                return r
            d.extend(it)
            return d.children
        r, exc = S.attempt(go)
        S.check((exc is not None) == bad, op + " of an iterator accepts exactly supported types")
        if bad:
            S.check(isinstance(exc, TypeError), op + " of an iterator raises TypeError")
            verify(S, tl, model, op + " of an iterator leaves the list unchanged when it raises")
            verify(S, d.children, model, op + " of an iterator leaves the tag unchanged")
        elif exc is None:
            S.check(isinstance(r, ht.TagList), op + " of an iterator yields a TagList")
            verify(S, r, add + model if op == "radd" else model + add, op + " of an iterator")
            if op in ("add", "radd"):
                verify(S, keep, model, op + " leaves its operand alone")
    elif k == "steps":
        items = [S.str("s%d" % i, 1) if i % 2 else ht.Tag("b") for i in range(5)]
        tl = ht.TagList(*items)
        a = S.pick("a", [None, 0, 1, -1, -3, 9])
        b = S.pick("b", [None, 0, 2, -1, -9, 4])
        st = S.pick("st", [None, 2, -1, -2, 3])
        r = tl[a:b:st]
        S.check(isinstance(r, ht.TagList), "slice yields a TagList")
        verify(S, r, list(tl)[a:b:st], "slice with a step")
        verify(S, tl, items, "slicing leaves the list alone")
        r.append("x")
        verify(S, tl, items, "a slice is a list of its own")
        n = S.pick("n", [0, 1, 2, -2, True])
        r = tl[a:b] * n
        verify(S, r, (list(tl)[a:b]) * n, "repetition of a slice")
        verify(S, n * tl[b:], n * list(tl)[b:], "repetition of a slice")
    elif k == "strings":
        s = S.str("s", 5)
        t = ht.TagList()
        t.extend(s)
        t = t + s
        t = s + t
        t += s
        t.append(s, [s], (s,))
        t.insert(0, s)
        verify(S, t, [s] * 8, "strings are kept whole")
        m = S.str("m", 3)
        h = ht.HTML(m)
        t = ht.TagList()
        t.extend(h)
        t = t + h
        t += h
        t.append(h, [h], (h,))
        t.insert(0, h)
        verify(S, t, [h] * 7, "HTML() strings are kept whole")
