"""C17  Tag context manager restores the display hook and collects children in order."""
import itertools
import sys

from props import common as C

ENCODED = ["Tag.__enter__", "Tag.__exit__", "wrap_displayhook_handler", "Tag.append",
           "TagList.append", "_tagchilds_to_tagnodes"]
BOUNDS = {
    "quick": "every program of up to 4 events (display of a value of 3 kinds, open a nested "
             "block, leave a block, raise, re-enter an active tag, replace sys.displayhook) and "
             "every program of up to 2 events over 20 kinds of displayed values, with block "
             "nesting up to 4, with exceptions caught at any level and with a base hook that "
             "records or raises; every one of 22 exception types raised in and caught around "
             "blocks of up to 3 levels; displayed text is symbolic"
             "; 150 values in one block, 80 blocks in a row and 50 levels; a tag used by "
             "several with-statements in sequence",
    "thorough": "programs of up to 6 events",
}
COVER = ["nested", "raised", "reentered", "rejected", "caught"]

# events: v value, ( open, ) close, ! raise, @ re-enter, ~ tamper
VALS = ("str", "int", "None", "...", "tag", "list", "repr", "html", "exp", "bad", "eqbad", "float",
        "taglist", "meta", "tuple", "dict", "str2", "empty", "badlist", "reprexp")


class Boom(Exception):
    pass


class Cancel(BaseException):
    """Like KeyboardInterrupt."""


class Odd:
    """Not a valid child; equal to everything."""

    def __eq__(self, other):
        return True

    __hash__ = None


def shapes(tier):
    out = []
    for n, depth, kinds in (((2, 3, "all"), (4, 4, "s")) if tier == "quick"
                            else ((3, 3, "all"), (6, 5, "s"))):
        for pre in itertools.product("v(!@~", repeat=2 if kinds == "s" else 1):
            for base in ("rec", "raise"):
                out.append(dict(n=n, depth=depth, kinds=kinds, pre="".join(pre), base=base))
    out += [dict(kind="exc", e=i) for i in range(len(EXCS))]
    out += [dict(kind="large", w=w) for w in ("values", "blocks", "deep")]
    out += [dict(kind="reuse", w=w) for w in ("again", "inside", "raised")]
    return out


class Falsy(Exception):
    def __bool__(self):
        return False


class Group(ValueError, KeyError):
    pass


EXCS = (KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, StopAsyncIteration,
        RuntimeError, TypeError, ValueError, AttributeError, KeyError, OSError, AssertionError,
        NotImplementedError, RecursionError, ImportError, Warning, Falsy, Group, MemoryError,
        ZeroDivisionError, EOFError, UnicodeError)


def builtin_exceptions(S, sh):
    """Any kind of exception, raised in a block of any depth and caught at any level."""
    ht = S.ht
    E = EXCS[sh["e"]]
    depth = 1 + S.choice("depth", 3)
    at = S.choice("at%d" % depth, depth)          # the block that raises
    catch = S.choice("catch%d" % at, at + 1)   # the level whose surroundings catch it
    s = S.str("s", 1)
    err = E("e") if S.flag("args") else E()
    got, tags = [], [ht.Tag("t%d" % i) for i in range(depth)]
    hooks = [None] * depth
    seen = []

    def block(i):
        hooks[i] = sys.displayhook
        with tags[i]:
            sys.displayhook(s)
            if i + 1 < depth:
                if i + 1 == catch:
                    try:
                        block(i + 1)
                    except E as e:
                        seen.append(e)
                    S.check(sys.displayhook is not hooks[i], "hook restored to the block's own")
                else:
                    block(i + 1)
            if i == at:
                raise err
            sys.displayhook("end")

    base = sys.displayhook
    sys.displayhook = got.append
    mine = sys.displayhook
    try:
        try:
            block(0)
        except E as e:
            seen.append(e)
        S.check(sys.displayhook == mine, "sys.displayhook is restored")
        S.check(len(seen) == 1 and seen[0] is err, "exceptions leave the block unchanged")
        S.check(len(got) == 1 and got[0] is tags[0],
                "the tag is handed to the enclosing hook exactly once")
        for i, t in enumerate(tags):
            kids = list(t.children)
            exp = [s] + ([tags[i + 1]] if i + 1 < depth else [])
            if i > at or i < catch:
                exp.append("end")
            S.check(len(kids) == len(exp), "children: number of children")
            for a, b in zip(kids, exp):
                S.check(a is b if isinstance(b, ht.Tag) else isinstance(a, str) and a == b,
                        "children: child")
    finally:
        sys.displayhook = base


def reuse(S, sh):
    """A tag entered again after its block ended: refused with the chain intact, or like new."""
    ht = S.ht
    s = S.str("s", 1)
    t, outer, got = ht.Tag("p", "first"), ht.Tag("div"), []
    base, mine = sys.displayhook, lambda v: got.append(v)
    sys.displayhook = mine
    try:
        try:
            with t:
                sys.displayhook(s)
                if sh["w"] == "raised":
                    raise Boom("b")
        except Boom:
            pass
        S.check(sys.displayhook is mine and len(got) == 1 and got[0] is t,
                "the tag is handed to the enclosing hook exactly once")
        if sh["w"] == "inside":
            outer.__enter__()
        h = sys.displayhook
        n = len(t.children)
        ran = False
        exc = None
        try:
            with t:
                ran = True
                sys.displayhook("more")
        except Exception as e:
            exc = e
        S.check(sys.displayhook is h, "sys.displayhook is restored")
        S.check((exc is None) == ran, "a refused block does not run")
        S.check(len(t.children) == n + ran, "children: number of children")
        to = list(outer.children) if sh["w"] == "inside" else got[1:]
        S.check(len(to) == ran and all(x is t for x in to),
                "the tag is handed to the enclosing hook exactly once")
        if sh["w"] == "inside":
            outer.__exit__(None, None, None)
            S.check(sys.displayhook is mine and got[-1] is outer and len(got) == 2,
                    "the tag is handed to the enclosing hook exactly once")
    finally:
        sys.displayhook = base


def large(S, sh):
    """Many displayed values, many blocks in a row, many levels; an exception at one of them."""
    ht = S.ht
    w = sh["w"]
    n = {"values": 150, "blocks": 80, "deep": 50}[w]
    at = S.pick("at", [0, 1, n // 2, n - 1, None])
    s = S.str("s", 1)
    got = []
    base, mine = sys.displayhook, lambda v: got.append(v)
    sys.displayhook = mine
    err = Boom("b")

    def shown(i):
        return [s, None, 3, ht.HTML("<i>"), "t", ..., C.ReprObj("<r/>"), ["q", s]][i % 8]

    def kids(i):
        return [[("eq", s)], [], [("eq", "3")], [("html", "<i>")], [("eq", "t")], [],
                [("html", "<r/>")], [("eq", "q"), ("eq", s)]][i % 8]
    p = Prog(S, dict(n=0, depth=0, kinds="s", pre=""))
    top = ht.Tag("top")
    exp = []
    tags = [top]
    p.models[id(top)] = exp
    try:
        try:
            if w == "deep":
                def rec(i):
                    t = top if i == 0 else ht.Tag("t%d" % i)
                    p.keep.append(t)
                    tags.append(t)
                    m = p.models[id(t)] = []
                    h = sys.displayhook
                    try:
                        with t:
                            sys.displayhook(shown(i))
                            m += kids(i)
                            if i + 1 < n:
                                try:
                                    rec(i + 1)
                                finally:
                                    m.append(("is", tags[i + 2]))
                            if i == at:
                                raise err
                            sys.displayhook("e")
                            m.append(("eq", "e"))
                    finally:
                        S.check(sys.displayhook is h, "sys.displayhook is restored")
                rec(0)
            else:
                with top:
                    mid = sys.displayhook
                    for i in range(n):
                        if w == "values":
                            if i == at:
                                raise err
                            sys.displayhook(shown(i))
                            exp += kids(i)
                            continue
                        t = ht.Tag("t%d" % i)
                        tags.append(t)
                        m = p.models[id(t)] = []
                        exp.append(("is", t))
                        with t:
                            if i == at:
                                raise err
                            sys.displayhook(shown(i))
                            m += kids(i)
                        S.check(sys.displayhook is mid, "hook restored to the enclosing block's")
            S.check(at is None, "exceptions leave the block unchanged")
        except Boom as e:
            S.check(e is err and at is not None, "exceptions leave the block unchanged")
        S.check(sys.displayhook is mine, "sys.displayhook is restored")
        S.check(len(got) == 1 and got[0] is top,
                "the tag is handed to the enclosing hook exactly once")
        for t in tags:
            p.same(S, t, "children")
    finally:
        sys.displayhook = base


class Prog:
    def __init__(self, S, sh):
        self.S = S
        self.sh = sh
        self.left = sh["n"]
        self.pre = list(sh["pre"])
        self.k = 0
        self.active = []
        self.got = []            # what the base hook received
        self.models = {}         # id(tag) -> expected children
        self.keep = []
        self.sink = lambda v: None

    def event(self):
        self.k += 1
        opts = "v(!@~)"
        if len(self.active) >= self.sh["depth"]:
            opts = opts.replace("(", "")
        if self.pre:
            k = self.pre.pop(0)
            return k if k in opts else ")"
        if self.left <= 0:
            return ")"
        return opts[self.S.choice("e%d.%d" % (self.k, len(opts)), len(opts))]

    def value(self):
        """(value, expected children or None when rejected)."""
        S, ht = self.S, self.S.ht
        n = self.k
        k = S.pick("v%d" % n, VALS if self.sh["kinds"] == "all" else ("str", "bad", "..."))
        if k == "str":
            s = S.str("s%d" % n, 2 if self.sh["kinds"] == "all" else 1)
            return s, [("eq", s)]
        if k == "str2":
            s = C.Str2("k")
            return s, [("eq", s)]
        if k == "empty":
            return "", [("eq", "")]
        if k == "int":
            i = S.int("i%d" % n, -99, 99)
            return i, [("eq", str(i))]
        if k == "float":
            return 0.5, [("eq", "0.5")]
        if k in ("None", "..."):
            return (None if k == "None" else ...), []
        if k == "tag":
            t = ht.Tag("b", "x")
            return t, [("is", t)]
        if k == "list":
            s = S.str("l%d" % n, 1)
            t = ht.Tag("i")
            return [s, None, [t, 7]], [("eq", s), ("is", t), ("eq", "7")]
        if k == "tuple":
            t = ht.Tag("i")
            return ("a", t), [("eq", "a"), ("is", t)]
        if k == "taglist":
            t = ht.Tag("i")
            return ht.TagList("a", t), [("eq", "a"), ("is", t)]
        if k == "repr":
            s = S.str("r%d" % n, 1)
            return C.ReprObj(s), [("html", s)]
        if k == "reprexp":
            o = C.ReprExpander(lambda: "x", "<r>")
            return o, [("is", o)]
        if k == "html":
            s = S.str("h%d" % n, 1)
            return ht.HTML(s), [("html", s)]
        if k == "exp":
            o = C.Expander(lambda: "x")
            return o, [("is", o)]
        if k == "meta":
            m = ht.MetadataNode()
            return m, [("is", m)]
        return {"bad": object, "eqbad": Odd, "dict": dict, "badlist": lambda: ["ok", object()]}[k](), \
            None

    def same(self, S, tag, what):
        exp = self.models[id(tag)]
        got = list(tag.children)
        S.check(len(got) == len(exp), what + ": number of children")
        for g, (k, e) in zip(got, exp):
            if k == "is":
                S.check(g is e, what + ": child")
            elif k == "html":
                S.check(isinstance(g, S.ht.HTML), what + ": _repr_html_ kept as HTML")
                if isinstance(g, S.ht.HTML):
                    S.check_eq(g.as_string(), e, what + ": _repr_html_ text")
            else:
                S.check(isinstance(g, str), what + ": child text type")
                S.check_eq(g, e, what + ": child text")

    def block(self, depth):
        """Run one with-block; returns the exception that leaves it, if any."""
        S, ht = self.S, self.S.ht
        tag = ht.Tag("t%d" % depth, *(("first",) if depth % 2 else ()))
        self.keep.append(tag)
        self.models[id(tag)] = [("eq", "first")] if depth % 2 else []
        before = sys.displayhook
        nbase = len(self.got)
        outer = self.active[-1] if self.active else None
        nout = len(outer.children) if outer is not None else None
        boom = None
        exc = None
        tampered = [False]
        try:
            with tag:
                S.check(sys.displayhook is not before, "a hook is installed inside the block")
                self.active.append(tag)
                mine = sys.displayhook
                try:
                    while True:
                        ev = self.event()
                        if ev == ")":
                            break
                        self.left -= 1
                        if ev == "~":
                            tampered[0] = True
                            sys.displayhook = self.sink
                            continue
                        if ev == "!":
                            S.covers("raised")
                            boom = Boom("b") if S.flag("x%d" % self.k) else Cancel("c")
                            raise boom
                        if ev == "@":
                            S.covers("reentered")
                            t = self.active[S.choice("t%d.%d" % (self.k, len(self.active)),
                                                     len(self.active))]
                            h = sys.displayhook
                            n = [len(a.children) for a in self.active]
                            try:
                                with t:
                                    S.check(False, "entering an active tag raises")
                            except Exception as e:
                                boom = e
                            S.check(boom is not None, "entering an active tag raises")
                            S.check(sys.displayhook is h, "hook chain intact after a rejected entry")
                            S.check(n == [len(a.children) for a in self.active]
                                    and len(self.got) == nbase,
                                    "a rejected entry hands nothing over")
                            if boom is not None and S.flag("y%d" % self.k):
                                raise boom
                            boom = None
                            continue
                        if ev == "(":
                            S.covers("nested")
                            boom = self.block(depth + 1)
                            S.check(tampered[0] or sys.displayhook is mine,
                                    "hook restored to the enclosing block's")
                            if boom is not None and not S.flag("z%d" % self.k):
                                raise boom
                            if boom is not None:
                                S.covers("caught")
                            boom = None
                            continue
                        v, exp = self.value()
                        if tampered[0]:
                            sys.displayhook(v)
                            continue
                        try:
                            sys.displayhook(v)
                            S.check(exp is not None, "an invalid value is rejected with TypeError")
                        except TypeError as e:
                            S.covers("rejected")
                            S.check(exp is None, "a valid value is accepted")
                            if not S.flag("u%d" % self.k):
                                boom = e
                                raise
                        if exp:
                            self.models[id(tag)].extend(exp)
                finally:
                    self.active.pop()
                S.check(len(self.got) == nbase and (outer is None or len(outer.children) == nout),
                        "nothing is handed over before the block ends")
        except (Exception, Cancel) as e:
            exc = e
        S.check(sys.displayhook is before, "sys.displayhook is restored")
        if outer is None and self.sh["base"] == "raise":
            S.check(exc is not None, "an exception of the enclosing hook is not lost")
        else:
            S.check(exc is boom, "exceptions leave the block unchanged")
        self.same(S, tag, "children")
        # handed over exactly once
        if outer is None:
            S.check(len(self.got) == nbase + 1 and self.got[-1] is tag,
                    "the tag is handed to the enclosing hook exactly once")
        elif self.hands(before):
            self.models[id(outer)].append(("is", tag))
            S.check(len(self.got) == nbase, "only the enclosing hook receives the tag")
        return exc

    def hands(self, before):
        return before is not self.sink


def run(S, sh):
    if sh.get("kind") == "exc":
        builtin_exceptions(S, sh)
        return
    if sh.get("kind") in ("large", "reuse"):
        {"large": large, "reuse": reuse}[sh["kind"]](S, sh)
        return
    p = Prog(S, sh)
    saved = sys.displayhook

    def base(v):
        p.got.append(v)
        if sh["base"] == "raise":
            raise Boom("hook")

    sys.displayhook = base
    try:
        p.block(0)
        S.check(sys.displayhook is base, "sys.displayhook is restored")
        if sh["kinds"] != "all":
            # a second block afterwards behaves the same
            p.left = 1
            p.block(1)
            S.check(sys.displayhook is base, "sys.displayhook is restored")
        S.observe(len(p.got))
        for t in p.got:
            if isinstance(t, S.ht.Tag):
                S.observe(t.name)
    finally:
        sys.displayhook = saved
