"""Symbolic strings, ints and bools that live inside ordinary Python execution.

A ``SymStr`` *is* a ``str`` whose character data is the value on the current path (its
shadow) and which carries a token sequence describing that value for every other input.
Invariant: ``eval_toks(s.toks, env) == str(s)``.
"""
from __future__ import annotations

import hashlib

from . import engine
from . import expr as X
from .expr import E, And, Or, Not, In, Eq, Le, Lt, BIte

# ==================================================================================
# tokens
# ==================================================================================
_tok = {}
_tid = [0]


class Tok:
    __slots__ = ("id", "_vars")

    def __repr__(self):
        return tok_pp(self)


class Ch(Tok):
    __slots__ = ("e",)


class It(Tok):
    __slots__ = ("c", "a", "b")


class Rep(Tok):
    __slots__ = ("u", "n")


class Num(Tok):
    __slots__ = ("e",)


class Opq(Tok):
    __slots__ = ("kind", "key", "alpha")


# pattern-only
class Ws(Tok):
    __slots__ = ("cs",)


class Alt(Tok):
    __slots__ = ("alts", "name")


class RepAlt(Tok):
    """n copies of any of several constant units (pattern only)."""
    __slots__ = ("us", "n")


def reset():
    _tok.clear()
    _cons.clear()
    _mmemo.clear()


def _intern(key, cls, /, **kw):
    t = _tok.get(key)
    if t is None:
        t = cls()
        for k, v in kw.items():
            setattr(t, k, v)
        t._vars = None
        _tid[0] += 1
        t.id = _tid[0]
        _tok[key] = t
    return t


def tch(e):
    if isinstance(e, int):
        return chr(e)
    return _intern(("c", e.id), Ch, e=e)


def tit(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    a, b = norm(a), norm(b)
    if a == b:
        return a
    return (_intern(("i", c.id, a, b), It, c=c, a=a, b=b),)


def trep(u, n):
    if u == "":
        return ()
    if isinstance(n, int):
        return (u * n,) if n > 0 else ()
    if len(set(u)) == 1 and len(u) > 1:
        n = X.mulc(n, len(u))
        u = u[0]
    return (_intern(("r", u, n.id), Rep, u=u, n=n),)


def tnum(e):
    if isinstance(e, int):
        return str(e)
    return _intern(("n", e.id), Num, e=e)


def topq(kind, key, alpha=None):
    return _intern(("o", kind, key), Opq, kind=kind, key=key, alpha=alpha)


def tws(cs):
    return _intern(("w", cs), Ws, cs=cs)


def talt(alts, name=""):
    return _intern(("a", tuple((g if isinstance(g, bool) else g.id, t) for g, t in alts)),
                   Alt, alts=tuple(alts), name=name)


def trepalt(us, n):
    return _intern(("ra", tuple(us), n if isinstance(n, int) else n.id), RepAlt,
                   us=tuple(us), n=n)


def norm(toks):
    """Merge constants and repetitions."""
    out = []
    for t in toks:
        if type(t) is str:
            if not t:
                continue
            if out:
                p = out[-1]
                if type(p) is str:
                    out[-1] = p + t
                    continue
                if type(p) is Rep and len(p.u) == 1 and t[0] == p.u:
                    k = len(t) - len(t.lstrip(p.u))
                    out[-1] = trep(p.u, X.add(p.n, k))[0]
                    if t[k:]:
                        out.append(t[k:])
                    continue
            out.append(t)
        elif type(t) is Rep and len(t.u) == 1 and out:
            p = out[-1]
            if type(p) is Rep and p.u == t.u:
                r = trep(t.u, X.add(p.n, t.n))
                out[-1:] = list(r)
            elif type(p) is str and p[-1] == t.u:
                k = len(p) - len(p.rstrip(t.u))
                r = trep(t.u, X.add(t.n, k))
                if p[:-k]:
                    out[-1] = p[:-k]
                else:
                    out.pop()
                out.extend(r)
            else:
                out.append(t)
        else:
            out.append(t)
    return tuple(out)


def tok_pp(t):
    if type(t) is str:
        return repr(t)
    if type(t) is Ch:
        return "<%s>" % X.pp(t.e)
    if type(t) is It:
        return "{%s ? %s : %s}" % (X.pp(t.c), toks_pp(t.a), toks_pp(t.b))
    if type(t) is Rep:
        return "%r*[%s]" % (t.u, X.pp(t.n))
    if type(t) is Num:
        return "#(%s)" % X.pp(t.e)
    if type(t) is Opq:
        return "OPQ.%s" % t.kind
    if type(t) is Ws:
        return "<WS>"
    if type(t) is Alt:
        return "ALT.%s" % t.name
    if type(t) is RepAlt:
        return "REPALT%r" % (t.us,)
    return object.__repr__(t)


def toks_pp(ts):
    return " ".join(tok_pp(t) for t in ts)


def tok_vars(t):
    if type(t) is str:
        return frozenset()
    v = t._vars
    if v is None:
        if type(t) in (Ch, Num):
            v = t.e.vars
        elif type(t) is It:
            v = t.c.vars | toks_vars(t.a) | toks_vars(t.b)
        elif type(t) is Rep:
            v = t.n.vars
        elif type(t) is Opq:
            v = toks_vars(t.key)
        elif type(t) is Alt:
            v = frozenset()
            for g, a in t.alts:
                if isinstance(g, E):
                    v |= g.vars
                v |= toks_vars(a)
        elif type(t) is RepAlt:
            v = t.n.vars if isinstance(t.n, E) else frozenset()
        else:
            v = frozenset()
        t._vars = v
    return v


def toks_vars(ts):
    v = frozenset()
    for t in ts:
        if type(t) is not str:
            v |= tok_vars(t)
    return v


PREIMAGE = {}       # digest -> text it was computed from


def _digest(kind):
    def f(s):
        d = hashlib.new(kind, s.encode("utf-8", "surrogatepass")).hexdigest()
        if len(PREIMAGE) > 20000:
            PREIMAGE.clear()
        PREIMAGE[d] = s
        return d
    return f


DIGEST_LEN = {"sha1": 40, "md5": 32, "sha256": 64}
OPQ_EVAL = {
    "sha1": _digest("sha1"),
    "md5": _digest("md5"),
    "sha256": _digest("sha256"),
    "repr": lambda s: repr(s),
}


def eval_toks(ts, evf):
    out = []
    for t in ts:
        if type(t) is str:
            out.append(t)
        elif type(t) is Ch:
            out.append(chr(evf(t.e)))
        elif type(t) is It:
            out.append(eval_toks(t.a if evf(t.c) else t.b, evf))
        elif type(t) is Rep:
            out.append(t.u * evf(t.n))
        elif type(t) is Num:
            out.append(str(evf(t.e)))
        elif type(t) is Opq:
            out.append(OPQ_EVAL[t.kind](eval_toks(t.key, evf)))
        else:
            raise TypeError("cannot evaluate %r" % (t,))
    return "".join(out)


# ==================================================================================
# wrapping
# ==================================================================================


def run():
    r = engine.CUR
    if r is None:
        raise engine.SymxError("symbolic value used outside a run")
    return r


def wrapb(c):
    if c is True or c is False:
        return c
    d = run().decide(c)
    if d is not None:
        return d
    return SymBool(c)


def wrapi(e):
    if isinstance(e, int):
        return int(e)
    return SymInt(e)


CHECK_SHADOW = False


def mk(toks, shadow=None):
    toks = norm(toks)
    if not toks:
        return ""
    if len(toks) == 1 and type(toks[0]) is str:
        return toks[0]
    if shadow is None:
        shadow = eval_toks(toks, run().ev)
    elif CHECK_SHADOW:
        s2 = eval_toks(toks, run().ev)
        if s2 != str.__str__(shadow):
            raise engine.SymxError("shadow mismatch: %r vs %r for %s" % (
                s2, str.__str__(shadow), toks_pp(toks)))
    s = str.__new__(SymStr, shadow)
    s.toks = toks
    return s


def toks_of(s):
    if isinstance(s, SymStr):
        return s.toks
    s = str.__str__(s) if type(s) is not str else s
    if type(s) is not str:
        s = "".join(list(s)) if False else str.__str__(s)
    return (s,) if s else ()


def is_sym(x):
    return isinstance(x, (SymStr, SymInt, SymBool, SymBytes))


def as_tag_bool(x):
    """Expr of something boolean."""
    if isinstance(x, SymBool):
        return x.e
    return bool(x)


# ==================================================================================
# length, flattening
# ==================================================================================


def toks_len(ts):
    n = 0
    parts = []
    for t in ts:
        if type(t) is str:
            n += len(t)
        elif type(t) is Ch:
            n += 1
        elif type(t) is It:
            parts.append(X.iite(t.c, toks_len(t.a), toks_len(t.b)))
        elif type(t) is Rep:
            parts.append(X.mulc(t.n, len(t.u)))
        elif type(t) is Num:
            parts.append(num_len(t.e))
        elif type(t) is Opq:
            parts.append(len(OPQ_EVAL[t.kind](eval_toks(t.key, run().ev))))
    return X.add(n, *parts)


def num_len(e):
    d = X.dom_of(e)
    lo, hi = d[0][0], d[-1][1]
    res = 1
    k = 1
    while 10 ** k <= hi:
        res = X.iite(Le(10 ** k, e), k + 1, res)
        k += 1
    if lo < 0:
        neg = 2
        k = 1
        while -(10 ** k) >= lo:
            neg = X.iite(Le(e, -(10 ** k)), k + 2, neg)
            k += 1
        res = X.iite(Lt(e, 0), neg, res)
    return res


def num_cells(e):
    """Digits of an int expression (forks on sign and number of digits)."""
    r = run()
    out = []
    if r.branch(Lt(e, 0)):
        out.append("-")
        e = X.mulc(e, -1)
    k = 1
    while r.branch(Le(10 ** k, e)):
        k += 1
    for i in range(k - 1, -1, -1):
        d = X.mod(X.div(e, 10 ** i), 10) if i < k - 1 else X.div(e, 10 ** i)
        # the leading digit needs no mod (the branch above bounds it), but its domain
        # over-approximation may be larger than 0..9: clamp by mod for evaluation
        if i == k - 1:
            d = X.mod(d, 10)
        out.append(tch(X.add(48, d)))
    return out


def flatten(ts, expand=None):
    """Cells: 1-char str | Ch | Rep | Opq.  Forks on conditional tokens.
    expand: charset; repetitions whose unit meets it are expanded (True = all)."""
    out = []
    r = run()
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if type(t) is str:
            out.extend(t)
        elif type(t) is Ch:
            d = r.dom.get(t.e)
            if d is not None and len(d) == 1 and d[0][0] == d[0][1]:
                out.append(chr(d[0][0]))
            else:
                out.append(t)
        elif type(t) is It:
            stack.extend(reversed(t.a if r.branch(t.c) else t.b))
        elif type(t) is Num:
            out.extend(num_cells(t.e))
        elif type(t) is Rep:
            if expand is True or (expand is not None
                                  and X.cs_and(X.cs_of(t.u), expand)):
                n = r.pin(t.n, "repetition count")
                out.extend(t.u * n)
            else:
                out.append(t)
        elif type(t) is Opq:
            if expand is True or (expand is not None and (
                    t.alpha is None or X.cs_and(t.alpha, expand))):
                r.incomplete.append("opaque %s expanded" % t.kind)
                out.extend(OPQ_EVAL[t.kind](eval_toks(t.key, r.ev)))
            else:
                out.append(t)
        else:
            raise TypeError(t)
    return out


def _cut(ts, k, rev=False):
    """Split the text after k characters (an int or an int expression, not negative), from the
    left or (rev) from the right, without expanding repetitions.  Returns the two parts, or None
    when the text has a token this cannot split."""
    r = run()
    stack = list(ts) if rev else list(reversed(ts))
    near = []

    def le(a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a <= b
        return r.branch(X.Le(a, b))
    while stack:
        if isinstance(k, int) and k == 0:
            break
        t = stack.pop()
        if type(t) is str:
            if le(len(t), k):
                near.append(t)
                k = k - len(t) if isinstance(k, int) else X.sub(k, len(t))
                continue
            n = k if isinstance(k, int) else r.pin(k, "slice index")
            if rev:
                near.append(t[len(t) - n:])
                stack.append(t[:len(t) - n])
            else:
                near.append(t[:n])
                stack.append(t[n:])
            break
        if type(t) is Ch:
            if le(1, k):
                near.append(t)
                k = k - 1 if isinstance(k, int) else X.sub(k, 1)
                continue
            stack.append(t)
            break
        if type(t) is It:
            x = t.a if r.branch(t.c) else t.b
            stack.extend(x if rev else reversed(x))
            continue
        if type(t) is Num:
            x = num_cells(t.e)
            stack.extend(x if rev else reversed(x))
            continue
        if type(t) is Rep and len(t.u) == 1:
            if le(t.n, k):
                near.append(t)
                k = X.sub(k, t.n)
                if not isinstance(k, int):
                    if le(k, 0):
                        break
                continue
            near.extend(trep(t.u, k))
            stack.extend(trep(t.u, X.sub(t.n, k)))
            break
        return None
    if rev:
        return tuple(stack), tuple(reversed(near))
    return tuple(near), tuple(reversed(stack))


def max_len(ts):
    n = toks_len(ts)
    return n if isinstance(n, int) else X.dom_of(n)[-1][1]


def slice_toks(ts, st, sp):
    """ts[st:sp] for texts with repetitions; None when it cannot be done symbolically."""
    r = run()

    def side(x):
        # (from the right?, distance)
        e = x.e if isinstance(x, SymInt) else x
        if isinstance(e, int):
            return (True, -e) if e < 0 else (False, e)
        return (True, X.sub(0, e)) if r.branch(X.Lt(e, 0)) else (False, e)
    if st is not None:
        rev, n = side(st)
        if rev:
            if sp is not None:
                return None
            c = _cut(ts, n, True)
            return c and c[1]
        c = _cut(ts, n)
        if c is None:
            return None
        ts = c[1]
        if sp is not None:
            rev2, n2 = side(sp)
            if rev2:
                c = _cut(ts, n2, True)
                return c and c[0]
            if not r.branch(X.Le(n, n2) if not (isinstance(n, int) and isinstance(n2, int))
                            else n <= n2):
                return ()
            c = _cut(ts, X.sub(n2, n))
            return c and c[0]
        return ts
    if sp is None:
        return ts
    rev, n = side(sp)
    c = _cut(ts, n, rev)
    return c and c[0]


def cin(c, cs):
    """Condition: the single-character cell is in cs."""
    if type(c) is str:
        return X.cs_has(cs, ord(c))
    if type(c) is Ch:
        return In(c.e, cs)
    return False


def ceq(c, d):
    if type(c) is str and type(d) is str:
        return c == d
    if type(c) is Ch and type(d) is Ch:
        return Eq(c.e, d.e)
    if type(c) is Ch and type(d) is str:
        return In(c.e, ((ord(d), ord(d)),))
    if type(d) is Ch and type(c) is str:
        return In(d.e, ((ord(c), ord(c)),))
    return False


def cell_cs(c):
    if type(c) is str:
        return ((ord(c), ord(c)),)
    if type(c) is Ch:
        return X.dom_of(c.e)
    return ()


def sub_cs(sub):
    cs = ()
    for t in toks_of(sub):
        if type(t) is str:
            cs = X.cs_or(cs, X.cs_of(t))
        else:
            return True
    return cs


# -- character classes over all of Unicode, computed on demand -------------------------
_class_cache = {}


def uni_class(name):
    c = _class_cache.get(name)
    if c is None:
        f = getattr(str, name)
        iv = []
        start = None
        for lo, hi in X.UNICODE:
            for o in range(lo, hi + 2):
                v = o <= hi and f(chr(o))
                if v and start is None:
                    start = o
                elif not v and start is not None:
                    iv.append((start, o - 1))
                    start = None
        c = _class_cache[name] = X.cs_norm(iv)
    return c


_SPACE = None


def space_cs():
    global _SPACE
    if _SPACE is None:
        _SPACE = uni_class("isspace")
    return _SPACE


_map_cache = {}


def case_map(name):
    """(identity charset, [(charset, delta)...]) of a per-character case mapping."""
    m = _map_cache.get(name)
    if m is None:
        f = getattr(str, name)
        ident = []
        by = {}
        for lo, hi in X.UNICODE:
            for o in range(lo, hi + 1):
                r = f(chr(o))
                if len(r) == 1:
                    d = ord(r) - o
                    if d == 0:
                        if ident and ident[-1][1] == o - 1:
                            ident[-1] = (ident[-1][0], o)
                        else:
                            ident.append((o, o))
                    else:
                        by.setdefault(d, []).append((o, o))
        m = _map_cache[name] = (X.cs_norm(ident),
                                [(X.cs_norm(v), k) for k, v in by.items()])
    return m


def map_case(s, name):
    r = run()
    f = getattr(str, name)

    def go(ts):
        out = []
        for t in ts:
            if type(t) is str:
                out.append(f(t))
            elif type(t) is Ch:
                ident, groups = case_map(name)
                d = r.dom.get(t.e) or X.dom_of(t.e)
                hit = [(X.cs_and(cs, d), k) for cs, k in groups if X.cs_and(cs, d)]
                if not hit and X.cs_subset(d, ident):
                    out.append(t)
                    continue
                if len(hit) <= 3 and X.cs_subset(
                        d, X.cs_or(ident, tuple(i for cs, _ in hit for i in cs))):
                    cur = (t,)
                    for cs, k in hit:
                        cur = tit(In(t.e, cs), (tch(X.add(t.e, k)),), cur)
                    out.extend(cur)
                    continue
                if r.branch(In(t.e, ident)):
                    out.append(t)
                    continue
                for cs, k in groups:
                    if len(cs) and X.cs_and(cs, ((0, 127),)):
                        if r.branch(In(t.e, X.cs_and(cs, ((0, 127),)))):
                            out.append(tch(X.add(t.e, k)))
                            break
                else:
                    v = r.pin(t.e, "non-ASCII %s()" % name)
                    out.append(f(chr(v)))
            elif type(t) is It:
                out.extend(tit(t.c, go(t.a), go(t.b)))
            elif type(t) is Rep:
                out.extend(trep(f(t.u), t.n))
            elif type(t) is Num:
                out.append(t)
            else:
                out.extend(flatten((t,), True))
        return tuple(out)
    return mk(go(s.toks))


# ==================================================================================
# matching / equality
# ==================================================================================
_cons = {}
_mmemo = {}


class Node:
    __slots__ = ("tok", "next", "id", "_vars")


def cons(tok, nxt):
    key = (tok if type(tok) is str else tok.id, type(tok) is str,
           0 if nxt is None else nxt.id)
    n = _cons.get(key)
    if n is None:
        n = Node()
        n.tok = tok
        n.next = nxt
        n.id = len(_cons) + 1
        n._vars = None
        _cons[key] = n
    return n


def node_vars(n):
    if n is None:
        return frozenset()
    stack = []
    x = n
    while x is not None and x._vars is None:
        stack.append(x)
        x = x.next
    base = x._vars if x is not None else frozenset()
    while stack:
        x = stack.pop()
        base = base | tok_vars(x.tok)
        x._vars = base
    return n._vars


def to_list(ts, tail=None):
    for t in reversed(ts):
        tail = cons(t, tail)
    return tail


class Inexact:
    flag = False


def match_toks(outs, pats):
    """Expr: the string denoted by outs is in the language of pats."""
    Inexact.flag = False
    return _M(to_list(norm(outs)), to_list(norm(pats)), None)


def _ctx_add(ctx, c):
    """Refine the one-variable context with condition c. Returns (ok, ctx)."""
    if isinstance(c, E) and c.op == "in" and c.args[0].op == "var":
        v, cs = c.args
        if ctx is not None and ctx[0] is v:
            cs = X.cs_and(ctx[1], cs)
            if not cs:
                return False, ctx
        return True, (v, cs)
    return True, ctx


def _ctx_simp(ctx, c):
    if ctx is None or not isinstance(c, E):
        return c
    if c.op == "in" and c.args[0] is ctx[0]:
        x = X.cs_and(c.args[1], ctx[1])
        if not x:
            return False
        if x == ctx[1]:
            return True
    return c


def _guard(c, ctx, f):
    """And(c, f(ctx refined by c)) with pruning."""
    c = _ctx_simp(ctx, c)
    if c is False:
        return False
    if c is True:
        return f(ctx)
    ok, ctx2 = _ctx_add(ctx, c)
    if not ok:
        return False
    r = f(ctx2)
    if r is False:
        return False
    return And(c, r)


def _M(o, p, ctx):
    # fast deterministic prefix
    while True:
        if p is None:
            if o is None:
                return True
            break
        if o is not None:
            a, b = o.tok, p.tok
            if a is b and type(b) is not Alt and type(b) is not Ws:
                o, p = o.next, p.next
                continue
            if type(a) is str and type(b) is str:
                if a == b:
                    o, p = o.next, p.next
                    continue
                la, lb = len(a), len(b)
                if la < lb:
                    if not b.startswith(a):
                        # a prefix mismatch is final
                        return False
                    o, p = o.next, cons(b[la:], p.next)
                elif lb < la:
                    if not a.startswith(b):
                        return False
                    o, p = cons(a[lb:], o.next), p.next
                else:
                    return False
                continue
        break
    if ctx is not None:
        n = ctx[0].args[0]
        if n not in node_vars(o) and n not in node_vars(p):
            ctx = None
    key = (0 if o is None else o.id, 0 if p is None else p.id, ctx)
    r = _mmemo.get(key)
    if r is None:
        r = _mmemo[key] = _M1(o, p, ctx)
    return r


def _M1(o, p, ctx):
    a = None if o is None else o.tok
    b = None if p is None else p.tok
    ta, tb = type(a), type(b)
    # conditionals on either side
    if ta is It:
        c = _ctx_simp(ctx, a.c)
        if tb is It and b.c is a.c:
            return Or(_guard(c, ctx, lambda x: _M(to_list(a.a, o.next),
                                                  to_list(b.a, p.next), x)),
                      _guard(Not(c), ctx, lambda x: _M(to_list(a.b, o.next),
                                                       to_list(b.b, p.next), x)))
        return Or(_guard(c, ctx, lambda x: _M(to_list(a.a, o.next), p, x)),
                  _guard(Not(c), ctx, lambda x: _M(to_list(a.b, o.next), p, x)))
    if tb is It:
        c = _ctx_simp(ctx, b.c)
        return Or(_guard(c, ctx, lambda x: _M(o, to_list(b.a, p.next), x)),
                  _guard(Not(c), ctx, lambda x: _M(o, to_list(b.b, p.next), x)))
    if tb is Alt:
        res = False
        for g, ts in b.alts:
            res = Or(res, _guard(g, ctx, lambda x: _M(o, to_list(ts, p.next), x)))
            if res is True:
                break
        return res
    if tb is Ws:
        res = _M(o, p.next, ctx)
        if res is True:
            return True
        if ta is str:
            k = 0
            while k < len(a) and X.cs_has(b.cs, ord(a[k])):
                k += 1
                rest = cons(a[k:], o.next) if k < len(a) else o.next
                if k < len(a):
                    res = Or(res, _M(rest, p.next, ctx))
                else:
                    res = Or(res, _M(rest, p, ctx))
                if res is True:
                    return True
        elif ta is Ch:
            res = Or(res, _guard(In(a.e, b.cs), ctx, lambda x: _M(o.next, p, x)))
        elif ta is Rep:
            if all(X.cs_has(b.cs, ord(ch)) for ch in a.u):
                res = Or(res, _M(o.next, p, ctx))
        return res
    if tb is RepAlt:
        n = b.n
        if ta is Rep and a.u in b.us:
            d = X.sub(a.n, n)
            if d == 0 and isinstance(d, int):
                return _M(o.next, p.next, ctx)
            Inexact.flag = True
            return And(Eq(d, 0), _M(o.next, p.next, ctx))
        # expand one unit
        res = And(Eq(n, 0), _M(o, p.next, ctx))
        if ta is str:
            for u in b.us:
                if a.startswith(u):
                    rest = to_list((trepalt(b.us, X.sub(n, 1)),), p.next)
                    res = Or(res, And(Le(1, n), _M(
                        cons(a[len(u):], o.next) if len(a) > len(u) else o.next,
                        rest, ctx)))
        return res
    if o is None and p is None:
        return True
    if o is None:
        if tb is Rep:
            return And(Eq(b.n, 0), _M(o, p.next, ctx))
        return False
    if p is None:
        if ta is Rep:
            return And(Eq(a.n, 0), _M(o.next, p, ctx))
        return False
    if ta is Ch and tb is Ch:
        return _guard(Eq(a.e, b.e), ctx, lambda x: _M(o.next, p.next, x))
    if ta is Ch and tb is str:
        return _guard(In(a.e, ((ord(b[0]), ord(b[0])),)), ctx, lambda x: _M(
            o.next, cons(b[1:], p.next) if len(b) > 1 else p.next, x))
    if ta is str and tb is Ch:
        return _guard(In(b.e, ((ord(a[0]), ord(a[0])),)), ctx, lambda x: _M(
            cons(a[1:], o.next) if len(a) > 1 else o.next, p.next, x))
    if ta is Rep and tb is Rep and a.u == b.u:
        d = X.sub(a.n, b.n)
        if isinstance(d, int):
            if d == 0:
                return _M(o.next, p.next, ctx)
            if d > 0:
                return _M(cons(a.u * d, o.next), p.next, ctx)
            return _M(o.next, cons(a.u * -d, p.next), ctx)
        return Or(_guard(Eq(d, 0), ctx, lambda x: _M(o.next, p.next, x)),
                  _guard(Lt(0, d), ctx, lambda x: _M(
                      to_list(trep(a.u, d), o.next), p.next, x)),
                  _guard(Lt(d, 0), ctx, lambda x: _M(
                      o.next, to_list(trep(a.u, X.mulc(d, -1)), p.next), x)))
    if ta is Rep:
        one = _guard(Le(1, a.n), ctx, lambda x: _M(
            cons(a.u, to_list(trep(a.u, X.sub(a.n, 1)), o.next)), p, x)) \
            if _can_start(b, a.u[0]) else False
        return Or(_guard(Eq(a.n, 0), ctx, lambda x: _M(o.next, p, x)), one)
    if tb is Rep:
        one = _guard(Le(1, b.n), ctx, lambda x: _M(
            o, cons(b.u, to_list(trep(b.u, X.sub(b.n, 1)), p.next)), x)) \
            if _can_start(a, b.u[0]) else False
        return Or(_guard(Eq(b.n, 0), ctx, lambda x: _M(o, p.next, x)), one)
    if ta is Num and tb is Num:
        return And(Eq(a.e, b.e), _M(o.next, p.next, ctx))
    if ta is Num and tb is str:
        return _num_vs(a, b, ctx, lambda rest, x: _M(
            o.next, cons(rest, p.next) if rest else p.next, x))
    if tb is Num and ta is str:
        return _num_vs(b, a, ctx, lambda rest, x: _M(
            cons(rest, o.next) if rest else o.next, p.next, x))
    if ta is Opq and tb is Opq:
        if a.kind == b.kind:
            return And(_M(to_list(a.key), to_list(b.key), None),
                       _M(o.next, p.next, ctx))
    if ta is Num or tb is Num or ta is Opq or tb is Opq:
        # cheap refutation by alphabets
        x, y = (a, b) if ta in (Num, Opq) else (b, a)
        if type(x) is Opq and type(y) is str:
            n = DIGEST_LEN.get(x.kind)
            pre = PREIMAGE.get(y[:n]) if n else None
            if pre is not None:
                on, pn = o.next, p.next
                rest = y[n:]
                if rest:
                    if y is b:
                        pn = cons(rest, pn)
                    else:
                        on = cons(rest, on)
                return And(_M(to_list(x.key), to_list((pre,) if pre else ()), None),
                           _M(on, pn, ctx))
        if type(x) is Num:
            cs = ((45, 45), (48, 57))
        else:
            cs = x.alpha
        if cs is not None and type(y) is str and not X.cs_has(cs, ord(y[0])):
            return False
        if cs is not None and type(y) is Ch and not X.cs_and(cs, X.dom_of(y.e)):
            return False
        if type(x) is Num and type(y) is Opq:
            Inexact.flag = True
            return False
        Inexact.flag = True
        return False
    raise TypeError((a, b))


def _can_start(t, ch):
    if type(t) is str:
        return t[0] == ch
    if type(t) is Ch:
        return X.cs_has(X.dom_of(t.e), ord(ch))
    if type(t) is Rep:
        return True
    if type(t) is Num:
        return ch in "-0123456789"
    return True


def _num_vs(num, s, ctx, k):
    res = False
    i = 1 if s[:1] == "-" else 0
    j = i
    while j < len(s) and s[j] in "0123456789":
        j += 1
        txt = s[:j]
        if str(int(txt)) == txt:
            res = Or(res, And(Eq(num.e, int(txt)), k(s[j:], ctx)))
    return res


def eq_expr(a, b):
    """Exact equality formula, or None if it cannot be expressed."""
    ta, tb = toks_of(a), toks_of(b)
    if ta == tb:
        return True
    r = match_toks(ta, tb)
    if Inexact.flag and r is not True:
        return None
    return r


# ==================================================================================
# containment of a literal without forking (KMP over the token sequence)
# ==================================================================================


def contains_expr(ts, lit, fold=False):
    """Formula: the constant lit occurs in the string (ASCII case folding if fold)."""
    if lit == "":
        return True
    if fold:
        lit = lit.lower()
    m = len(lit)
    fail = [0] * (m + 1)
    k = 0
    for i in range(1, m):
        while k and lit[i] != lit[k]:
            k = fail[k]
        if lit[i] == lit[k]:
            k += 1
        fail[i + 1] = k

    def step(s, ch):
        if s == m:
            return m
        while s and lit[s] != ch:
            s = fail[s]
        return s + 1 if lit[s] == ch else 0

    alphabet = sorted(set(lit))

    def cs_for(ch):
        if fold and ch.isalpha():
            return X.cs_of((ch, ch.upper()))
        return X.cs_of(ch)

    def go(ts, dist):
        for t in ts:
            if type(t) is str:
                for ch in t:
                    c = ch.lower() if fold and ch.isascii() else ch
                    nd = {}
                    for s, cond in dist.items():
                        q = step(s, c)
                        nd[q] = Or(nd[q], cond) if q in nd else cond
                    dist = nd
            elif type(t) is Ch:
                nd = {}
                for s, cond in dist.items():
                    if s == m:
                        nd[m] = Or(nd.get(m, False), cond)
                        continue
                    other = ANY
                    for ch in alphabet:
                        q = step(s, ch)
                        cs = cs_for(ch)
                        other = X.cs_minus(other, cs)
                        if q:
                            z = And(cond, In(t.e, cs))
                            if z is not False:
                                nd[q] = Or(nd.get(q, False), z)
                        else:
                            other = X.cs_or(other, cs)
                    z = And(cond, In(t.e, other))
                    if z is not False:
                        nd[0] = Or(nd.get(0, False), z)
                dist = nd
            elif type(t) is It:
                da, db = go(t.a, dist), go(t.b, dist)
                nd = {}
                for q in set(da) | set(db):
                    z = Or(And(t.c, da.get(q, False)), And(Not(t.c), db.get(q, False)))
                    if z is not False:
                        nd[q] = z
                dist = nd
            elif type(t) is Rep:
                nd = {}
                for s, cond in dist.items():
                    q = s
                    seen = [s]
                    while True:
                        for ch in t.u:
                            q = step(q, ch.lower() if fold and ch.isascii() else ch)
                        if q == seen[-1] or len(seen) > 3 * m + 3:
                            break
                        seen.append(q)
                    for i, st in enumerate(seen):
                        last = i == len(seen) - 1
                        z = And(cond, Le(i, t.n) if last else Eq(t.n, i))
                        if z is not False:
                            nd[st] = Or(nd.get(st, False), z)
                dist = nd
            elif type(t) is Num:
                dist = go(flatten((t,)), dist)
            elif type(t) is Opq:
                if t.alpha is not None and not X.cs_and(t.alpha, X.cs_of(lit)):
                    nd = {}
                    for s, cond in dist.items():
                        q = m if s == m else 0
                        nd[q] = Or(nd.get(q, False), cond)
                    dist = nd
                else:
                    dist = go(flatten((t,), True), dist)
        return dist
    ANY = X.ANYINT
    return go(ts, {0: True}).get(m, False)


# ==================================================================================
# SymBool / SymInt / SymBytes
# ==================================================================================


class SymBool:
    """A symbolic bool.  Truth-testing it forks the path."""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return run().branch(self.e)

    def __eq__(self, other):
        if isinstance(other, SymBool):
            return wrapb(X.Iff(self.e, other.e))
        if isinstance(other, bool):
            return wrapb(self.e if other else Not(self.e))
        if isinstance(other, int):
            return bool(self) == other
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        if isinstance(r, SymBool):
            return wrapb(Not(r.e))
        return not r

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wrapb(And(self.e, as_tag_bool(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wrapb(Or(self.e, as_tag_bool(o)))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wrapb(Not(X.Iff(self.e, as_tag_bool(o))))
        return NotImplemented
    __rxor__ = __xor__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __add__(self, o):
        return bool(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return bool(self) * o
    __rmul__ = __mul__

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return repr(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymInt(int):
    def __new__(cls, e):
        s = int.__new__(cls, run().ev(e))
        s.e = e
        return s

    @staticmethod
    def _e(o):
        if isinstance(o, SymInt):
            return o.e
        if isinstance(o, SymBool):
            return X.iite(o.e, 1, 0)
        if isinstance(o, int):
            return int(o)
        return None

    def __add__(self, o):
        e = self._e(o)
        return wrapi(X.add(self.e, e)) if e is not None else int.__add__(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        e = self._e(o)
        return wrapi(X.sub(self.e, e)) if e is not None else int.__sub__(self, o)

    def __rsub__(self, o):
        e = self._e(o)
        return wrapi(X.sub(e, self.e)) if e is not None else int.__rsub__(self, o)

    def __neg__(self):
        return wrapi(X.mulc(self.e, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def __mul__(self, o):
        if isinstance(o, SymStr) or isinstance(o, str):
            return str_mul(o, self)
        if isinstance(o, SymInt):
            run().pin(o.e, "product of two symbolic ints")
            o = int(o)
        if isinstance(o, bool) or type(o) is int:
            return wrapi(X.mulc(self.e, int(o)))
        if isinstance(o, (list, tuple)):
            return o * run().pin(self.e, "list repetition")
        return NotImplemented
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return wrapi(X.div(self.e, o))
        return run().pin(self.e, "floordiv") // o

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return wrapi(X.mod(self.e, o))
        return run().pin(self.e, "mod") % o

    def __divmod__(self, o):
        return (self // o, self % o)

    def __eq__(self, o):
        e = self._e(o)
        return wrapb(Eq(self.e, e)) if e is not None else int.__eq__(self, o)

    def __ne__(self, o):
        e = self._e(o)
        return wrapb(Not(Eq(self.e, e))) if e is not None else int.__ne__(self, o)

    def __lt__(self, o):
        e = self._e(o)
        return wrapb(Lt(self.e, e)) if e is not None else int.__lt__(self, o)

    def __le__(self, o):
        e = self._e(o)
        return wrapb(Le(self.e, e)) if e is not None else int.__le__(self, o)

    def __gt__(self, o):
        e = self._e(o)
        return wrapb(Lt(e, self.e)) if e is not None else int.__gt__(self, o)

    def __ge__(self, o):
        e = self._e(o)
        return wrapb(Le(e, self.e)) if e is not None else int.__ge__(self, o)

    def __hash__(self):
        return int.__hash__(self)

    def __bool__(self):
        return run().branch(Not(Eq(self.e, 0)))

    def __str__(self):
        return mk((tnum(self.e),))

    def __repr__(self):
        return mk((tnum(self.e),))

    def __format__(self, spec):
        if spec == "":
            return mk((tnum(self.e),))
        run().pin(self.e, "formatted int")
        return int.__format__(int(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBytes(bytes):
    """UTF-8 encoding of a symbolic string; only hashing and decoding use it."""

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def decode(self, *a, **k):
        return mk(self.toks)

    def __eq__(self, o):
        if isinstance(o, SymBytes):
            return mk(self.toks) == mk(o.toks)
        if isinstance(o, bytes):
            return mk(self.toks) == o.decode("utf-8", "surrogatepass")
        return NotImplemented

    def __hash__(self):
        return bytes.__hash__(self)


def mk_bytes(toks, shadow):
    b = bytes.__new__(SymBytes, shadow)
    b.toks = toks
    return b


# ==================================================================================
# SymStr
# ==================================================================================


def str_mul(s, n):
    ts = toks_of(s)
    if isinstance(n, SymInt):
        if len(ts) == 0:
            return ""
        if len(ts) == 1 and type(ts[0]) is str:
            e = n.e
            if X.dom_of(e)[0][0] < 0:
                if not run().branch(Le(0, e)):
                    return ""
            return mk(trep(ts[0], e))
        n = run().pin(n.e, "repeat count")
    n = int(n)
    if n <= 0:
        return ""
    return mk(ts * n, str.__mul__(str.__str__(s), n))


def splice_const(text, old, new_toks):
    parts = text.split(old)
    out = []
    for i, p in enumerate(parts):
        if i:
            out.extend(new_toks)
        if p:
            out.append(p)
    return out


def replace_char(ts, old, new):
    """Replace every occurrence of one constant character; no forking."""
    r = run()
    cs = X.cs_of(old)
    new_const = new[0] if len(new) == 1 and type(new[0]) is str else ("" if not new else None)
    out = []
    for t in ts:
        if type(t) is str:
            if old in t:
                out.extend(splice_const(t, old, new))
            else:
                out.append(t)
        elif type(t) is Ch:
            c = In(t.e, cs)
            d = r.decide(c)
            if d is None:
                out.extend(tit(c, new, (t,)))
            elif d:
                out.extend(new)
            else:
                out.append(t)
        elif type(t) is It:
            d = r.decide(t.c)
            if d is None:
                out.extend(tit(t.c, replace_char(t.a, old, new), replace_char(t.b, old, new)))
            else:
                out.extend(replace_char(t.a if d else t.b, old, new))
        elif type(t) is Rep:
            if old in t.u:
                if new_const is not None:
                    out.extend(trep(t.u.replace(old, new_const), t.n))
                else:
                    n = r.pin(t.n, "repetition replaced symbolically")
                    out.extend(replace_char((t.u * n,) if n else (), old, new))
            else:
                out.append(t)
        elif type(t) is Num:
            if old in "-0123456789":
                out.extend(replace_char(tuple(flatten((t,))), old, new))
            else:
                out.append(t)
        elif type(t) is Opq:
            if t.alpha is not None and not X.cs_and(t.alpha, cs):
                out.append(t)
            else:
                out.extend(replace_char(tuple(flatten((t,), True)), old, new))
    return tuple(out)


def sub_cells(s, expand):
    return flatten(toks_of(s), expand)


def match_at(cells, i, sub):
    """Fork: do the cells of sub occur in cells at position i?"""
    if i + len(sub) > len(cells):
        return False
    conds = []
    for k, c in enumerate(sub):
        d = ceq(cells[i + k], c)
        if d is False:
            return False
        if d is not True:
            conds.append(d)
    if not conds:
        return True
    return run().branch(And(*conds))


def find_all(cells, sub, limit=-1, start=0):
    pos = []
    i = start
    n = len(sub)
    if n == 0:
        raise engine.SymxError("find of an empty string")
    while i + n <= len(cells):
        if limit >= 0 and len(pos) >= limit:
            break
        if match_at(cells, i, sub):
            pos.append(i)
            i += n
        else:
            i += 1
    return pos


def from_cells(cells):
    return mk(tuple(cells))


def sub_expand(sub):
    cs = sub_cs(sub)
    return cs


def lex_lt(a, b, orequal):
    ca, cb = flatten(toks_of(a), True), flatten(toks_of(b), True)
    r = run()
    for x, y in zip(ca, cb):
        ex = ord(x) if type(x) is str else x.e
        ey = ord(y) if type(y) is str else y.e
        if r.branch(Eq(ex, ey)):
            continue
        return r.branch(Lt(ex, ey))
    return len(ca) <= len(cb) if orequal else len(ca) < len(cb)


class SymStr(str):
    # ---- identity / conversion ----
    def __str__(self):
        return self

    def __repr__(self):
        return mk((topq("repr", self.toks),))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (str, (str.__str__(self),))

    def __hash__(self):
        return str.__hash__(self)

    def __bool__(self):
        return run().branch(Not(Eq(toks_len(self.toks), 0)))

    def __format__(self, spec):
        if spec == "" or spec == "s":
            return self
        return str.__format__(concretize(self, "format spec"), spec)

    # ---- comparison ----
    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        r = eq_expr(self, o)
        if r is None:
            a, b = flatten(self.toks, True), flatten(toks_of(o), True)
            if len(a) != len(b):
                return False
            r = And(*[ceq(x, y) for x, y in zip(a, b)])
        return wrapb(r)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, SymBool):
            return wrapb(Not(r.e))
        return not r

    def __lt__(self, o):
        return lex_lt(self, o, False) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return lex_lt(self, o, True) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return lex_lt(o, self, False) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return lex_lt(o, self, True) if isinstance(o, str) else NotImplemented

    # ---- building ----
    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(self.toks + toks_of(o), str.__add__(self, o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mk(toks_of(o) + self.toks, str.__add__(str.__str__(o), self))

    def __mul__(self, n):
        if not isinstance(n, int):
            return NotImplemented
        return str_mul(self, n)
    __rmul__ = __mul__

    def __mod__(self, args):
        return percent(self, args)

    def __rmod__(self, o):
        if isinstance(o, str):
            return percent(o, self)
        return NotImplemented

    def join(self, it):
        return join(self, it)

    def format(self, *a, **k):
        return str_format(self, a, k)

    # ---- length / access ----
    def sx_len(self):
        return wrapi(toks_len(self.toks))

    def __iter__(self):
        for c in flatten(self.toks, True):
            yield mk((c,))

    def __getitem__(self, k):
        if any(type(t) is Rep for t in self.toks):
            if isinstance(k, slice):
                if k.step is None or (isinstance(k.step, int) and k.step == 1):
                    x = slice_toks(self.toks, k.start, k.stop)
                    if x is not None:
                        return mk(x)
            elif isinstance(k, (int, SymInt)):
                x = slice_toks(self.toks, k, None)
                if x is not None:
                    c = _cut(x, 1)
                    if c is not None:
                        if not c[0] or (not isinstance(k, SymInt) and k < 0
                                        and not run().branch(X.Le(-k, toks_len(self.toks)))):
                            raise IndexError("string index out of range")
                        return mk(c[0])
        if isinstance(k, slice):
            ts = self.toks
            st, sp, step = (run().pin(x.e, "slice index") if isinstance(x, SymInt) else x
                            for x in (k.start, k.stop, k.step))
            if step in (None, 1):
                # fast paths at constant ends
                if st in (None, 0) and isinstance(sp, int) and sp >= 0 \
                        and type(ts[0]) is str and len(ts[0]) >= sp:
                    return ts[0][:sp]
                if st in (None, 0) and isinstance(sp, int) and sp < 0 \
                        and type(ts[-1]) is str and len(ts[-1]) >= -sp:
                    return mk(ts[:-1] + (ts[-1][:sp],))
                if sp is None and isinstance(st, int) and st >= 0 \
                        and type(ts[0]) is str and len(ts[0]) >= st:
                    return mk((ts[0][st:],) + ts[1:])
                if sp is None and isinstance(st, int) and st < 0 \
                        and type(ts[-1]) is str and len(ts[-1]) >= -st:
                    return ts[-1][st:]
                if st in (None, 0) and isinstance(sp, int) and sp >= max_len(ts):
                    return self
                if sp is None and st is None:
                    return self
            return from_cells(flatten(ts, True)[slice(st, sp, step)])
        if isinstance(k, SymInt):
            k = run().pin(k.e, "string index")
        return mk((flatten(self.toks, True)[k],))

    def __contains__(self, x):
        return self.sx_contains(x)

    def sx_contains(self, x):
        if not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand, not "
                            + type(x).__name__)
        if not isinstance(x, SymStr):
            return wrapb(contains_expr(self.toks, str.__str__(x)))
        return self.find(x) >= 0

    # ---- search ----
    def _range(self, cells, start, end):
        s, e, _ = slice(start, end).indices(len(cells))
        return s, e

    def find(self, sub, start=None, end=None):
        if not isinstance(sub, SymStr) and sub == "":
            return str.find(self, "", start, end)
        cells = flatten(self.toks, True)
        sc = flatten(toks_of(sub), True)
        if not sc:
            return 0
        s, e = self._range(cells, start, end)
        p = find_all(cells[:e], sc, 1, s)
        return p[0] if p else -1

    def rfind(self, sub, start=None, end=None):
        cells = flatten(self.toks, True)
        sc = flatten(toks_of(sub), True)
        s, e = self._range(cells, start, end)
        for i in range(e - len(sc), s - 1, -1):
            if match_at(cells, i, sc):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        cells = flatten(self.toks, True)
        s, e = self._range(cells, start, end)
        sc = flatten(toks_of(sub), True)
        if not sc:
            return e - s + 1
        return len(find_all(cells[:e], sc, -1, s))

    def startswith(self, prefix, *a):
        if a:
            return self[slice(*a)].startswith(prefix) if isinstance(
                self[slice(*a)], SymStr) else str.startswith(self[slice(*a)], prefix)
        if isinstance(prefix, tuple):
            return wrapb(Or(*[as_tag_bool(self.startswith(p)) for p in prefix]))
        if not isinstance(prefix, str):
            raise TypeError("startswith first arg must be str or a tuple of str")
        ts = self.toks
        if type(prefix) is str or not isinstance(prefix, SymStr):
            prefix = str.__str__(prefix)
            if type(ts[0]) is str and len(ts[0]) >= len(prefix):
                return ts[0].startswith(prefix)
            return wrapb(match_toks(ts, toks_of(prefix) + (tany(),)))
        cells = flatten(ts, True)
        return match_at(cells, 0, flatten(prefix.toks, True))

    def endswith(self, suffix, *a):
        if a:
            x = self[slice(*a)]
            return x.endswith(suffix)
        if isinstance(suffix, tuple):
            return wrapb(Or(*[as_tag_bool(self.endswith(p)) for p in suffix]))
        if not isinstance(suffix, str):
            raise TypeError("endswith first arg must be str or a tuple of str")
        if not isinstance(suffix, SymStr):
            suffix = str.__str__(suffix)
            if suffix == "":
                return True
            ts = self.toks
            if type(ts[-1]) is str and len(ts[-1]) >= len(suffix):
                return ts[-1].endswith(suffix)
            if len(suffix) == 1:
                return wrapb(last_in(ts, X.cs_of(suffix)))
        cells = flatten(self.toks, True)
        sc = flatten(toks_of(suffix), True)
        return match_at(cells, len(cells) - len(sc), sc) if len(sc) <= len(cells) else False

    # ---- transformation ----
    def replace(self, old, new, count=-1):
        if isinstance(count, SymInt):
            count = run().pin(count.e, "replace count")
        if not isinstance(old, str) or not isinstance(new, str):
            raise TypeError("replace() argument must be str")
        if isinstance(old, SymStr) or len(old) != 1 or count >= 0:
            if not isinstance(old, SymStr) and old == "":
                return str_concrete_call(self, "replace", (old, new, count), {})
            if count == 0:
                return self
            if not isinstance(old, SymStr):
                d = run().decide(contains_expr(self.toks, str.__str__(old)))
                if d is False:
                    return self
            exp = sub_expand(old)
            oc = flatten(toks_of(old), True)
            cells = flatten(self.toks, exp)
            if not oc:
                return str_concrete_call(self, "replace", (old, new, count), {})
            pos = find_all(cells, oc, count)
            out = []
            prev = 0
            for p in pos:
                out.extend(cells[prev:p])
                out.extend(toks_of(new))
                prev = p + len(oc)
            out.extend(cells[prev:])
            return mk(tuple(out))
        return mk(replace_char(self.toks, str.__str__(old), toks_of(new)))

    def translate(self, table):
        return translate(self, table)

    def lower(self):
        return map_case(self, "lower")

    def upper(self):
        return map_case(self, "upper")

    def casefold(self):
        return map_case(self, "casefold")

    def capitalize(self):
        cells = flatten(self.toks, True)
        if not cells:
            return self
        h, t = mk((cells[0],)), mk(tuple(cells[1:]))
        return join("", [h.upper(), t.lower()])

    def encode(self, encoding="utf-8", errors="strict"):
        enc = str(encoding).lower().replace("_", "-")
        if enc in ("utf-8", "utf8", "u8", "cp65001"):
            return mk_bytes(self.toks, str.encode(self, "utf-8", "surrogatepass"))
        if enc in ("ascii", "us-ascii") and errors in ("ignore", "strict", "replace"):
            ok = ((0, 127),)
            if errors == "strict":
                from . import rex
                if run().branch(rex.any_in(self.toks, X.cs_not(ok))):
                    raise UnicodeEncodeError("ascii", "\x80", 0, 1, "ordinal not in range(128)")
                return mk_bytes(self.toks, str.encode(self, "utf-8", "surrogatepass"))
            rest = () if errors == "ignore" else ("?",)
            t = mk(map_toks(self.toks,
                            lambda c: (c,) if ord(c) < 128 else rest,
                            lambda e: tit(In(e, ok), (tch(e),), rest)))
            return mk_bytes(toks_of(t), t.encode("utf-8") if type(t) is str
                            else str.encode(t, "utf-8", "surrogatepass"))
        return concretize(self, "encode " + enc).encode(encoding, errors)

    # ---- strip / split ----
    def _strip_cs(self, chars):
        if chars is None:
            return space_cs()
        if isinstance(chars, SymStr):
            chars = concretize(chars, "strip characters")
        return X.cs_of(chars)

    def lstrip(self, chars=None):
        return strip(self, self._strip_cs(chars), True, False)

    def rstrip(self, chars=None):
        return strip(self, self._strip_cs(chars), False, True)

    def strip(self, chars=None):
        return strip(self, self._strip_cs(chars), True, True)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        r = run()
        if sep is None:
            cells = flatten(self.toks, None)
            cs = space_cs()
            out = []
            cur = []
            for i, c in enumerate(cells):
                if maxsplit >= 0 and len(out) >= maxsplit and not cur:
                    rest = mk(tuple(cells[i:]))
                    rest = rest.lstrip()
                    if rest != "":
                        out.append(rest)
                    return out
                if type(c) is Rep:
                    ws = [ch for ch in c.u if X.cs_has(cs, ord(ch))]
                    if not ws:
                        cur.append(c)
                        continue
                    if len(ws) == len(c.u):
                        if r.branch(Eq(c.n, 0)):
                            continue
                        is_ws = True
                    else:
                        raise engine.SymxError("split of mixed repetition")
                elif type(c) is Opq:
                    is_ws = False
                else:
                    is_ws = r.branch(cin(c, cs))
                if is_ws:
                    if cur:
                        out.append(mk(tuple(cur)))
                        cur = []
                else:
                    cur.append(c)
            if cur:
                s = mk(tuple(cur))
                if s != "":
                    out.append(s)
            return out
        exp = sub_expand(sep)
        sc = flatten(toks_of(sep), True)
        cells = flatten(self.toks, exp)
        if not sc:
            raise ValueError("empty separator")
        pos = find_all(cells, sc, maxsplit)
        out = []
        prev = 0
        for p in pos:
            out.append(mk(tuple(cells[prev:p])))
            prev = p + len(sc)
        out.append(mk(tuple(cells[prev:])))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return [x[::-1] for x in reversed(self[::-1].split(None, maxsplit))]
        out = []
        s = self
        while maxsplit > 0:
            i = s.rfind(sep)
            if i < 0:
                break
            out.append(s[i + len(sep):])
            s = s[:i]
            maxsplit -= 1
        out.append(s)
        return out[::-1]

    def partition(self, sep):
        p = self.split(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else (self, "", "")

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else ("", "", self)

    def splitlines(self, keepends=False):
        cs = X.cs_of("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
        cells = flatten(self.toks, cs)
        r = run()
        out = []
        cur = []
        i = 0
        while i < len(cells):
            c = cells[i]
            if r.branch(cin(c, cs)):
                end = [c]
                if i + 1 < len(cells) and r.branch(cin(c, X.cs_of("\r"))) \
                        and r.branch(cin(cells[i + 1], X.cs_of("\n"))):
                    i += 1
                    end.append(cells[i])
                out.append(mk(tuple(cur + (end if keepends else []))))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(mk(tuple(cur)))
        return out

    # ---- classification ----
    def _all(self, name):
        cs = uni_class(name)
        cells = flatten(self.toks, True)
        if not cells:
            return name in ("isascii", "isprintable")
        return wrapb(And(*[cin(c, cs) for c in cells]))

    def isspace(self):
        return self._all("isspace")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isascii(self):
        return self._all("isascii")

    def isprintable(self):
        return self._all("isprintable")

    def isupper(self):
        cells = flatten(self.toks, True)
        up, lo, ti = uni_class("isupper"), uni_class("islower"), uni_class("istitle")
        return wrapb(And(Or(*[cin(c, up) for c in cells]),
                         *[Not(cin(c, X.cs_or(lo, X.cs_minus(ti, up)))) for c in cells]))

    def islower(self):
        cells = flatten(self.toks, True)
        up, lo, ti = uni_class("isupper"), uni_class("islower"), uni_class("istitle")
        return wrapb(And(Or(*[cin(c, lo) for c in cells]),
                         *[Not(cin(c, X.cs_or(up, ti))) for c in cells]))


def tany():
    """Pattern token: anything."""
    return tws(X.ANYINT)


def last_in(ts, cs):
    """Formula: the string is non-empty and its last character is in cs."""
    res = False
    empty_so_far = True     # everything to the right is empty
    for t in reversed(ts):
        if type(t) is str:
            return Or(res, And(empty_so_far, X.cs_has(cs, ord(t[-1]))))
        if type(t) is Ch:
            return Or(res, And(empty_so_far, In(t.e, cs)))
        if type(t) is It:
            res = Or(res, And(empty_so_far, BIte(t.c, last_in(t.a, cs), last_in(t.b, cs))))
            empty_so_far = And(empty_so_far, Eq(toks_len((t,)), 0))
        elif type(t) is Rep:
            res = Or(res, And(empty_so_far, Le(1, t.n), X.cs_has(cs, ord(t.u[-1]))))
            empty_so_far = And(empty_so_far, Eq(t.n, 0))
        elif type(t) is Num:
            d = X.mod(t.e, 10)
            if X.dom_of(t.e)[0][0] < 0:
                d = X.iite(Lt(t.e, 0), X.mod(X.mulc(t.e, -1), 10), d)
            return Or(res, And(empty_so_far, In(X.add(48, d), cs)))
        elif type(t) is Opq:
            if t.alpha is not None and not X.cs_and(t.alpha, cs):
                return res
            c = flatten((t,), True)
            return Or(res, And(empty_so_far, cin(c[-1], cs)))
    return res


def strip(s, cs, left, right):
    ts = list(s.toks)
    r = run()
    if left:
        while ts:
            t = ts[0]
            if type(t) is str:
                k = 0
                while k < len(t) and X.cs_has(cs, ord(t[k])):
                    k += 1
                if k == len(t):
                    ts.pop(0)
                    continue
                ts[0] = t[k:]
                break
            if type(t) is Ch:
                if r.branch(In(t.e, cs)):
                    ts.pop(0)
                    continue
                break
            if type(t) is It:
                ts[0:1] = list(t.a if r.branch(t.c) else t.b)
                continue
            if type(t) is Rep:
                if all(X.cs_has(cs, ord(c)) for c in t.u):
                    ts.pop(0)
                    continue
                if not any(X.cs_has(cs, ord(c)) for c in t.u):
                    if r.branch(Eq(t.n, 0)):
                        ts.pop(0)
                        continue
                    break
            ts[0:1] = flatten((t,), cs)
            if ts and ts[0] is t:
                break
    if right:
        while ts:
            t = ts[-1]
            if type(t) is str:
                k = len(t)
                while k and X.cs_has(cs, ord(t[k - 1])):
                    k -= 1
                if k == 0:
                    ts.pop()
                    continue
                ts[-1] = t[:k]
                break
            if type(t) is Ch:
                if r.branch(In(t.e, cs)):
                    ts.pop()
                    continue
                break
            if type(t) is It:
                ts[-1:] = list(t.a if r.branch(t.c) else t.b)
                continue
            if type(t) is Rep:
                if all(X.cs_has(cs, ord(c)) for c in t.u):
                    ts.pop()
                    continue
                if not any(X.cs_has(cs, ord(c)) for c in t.u):
                    if r.branch(Eq(t.n, 0)):
                        ts.pop()
                        continue
                    break
            x = flatten((t,), cs)
            if len(x) == 1 and x[0] is t:
                break
            ts[-1:] = x
    return mk(tuple(ts))


def map_toks(ts, f_const, f_ch):
    """Per-character mapping: f_const(char)->toks tuple, f_ch(e)->toks tuple."""
    out = []
    for t in ts:
        if type(t) is str:
            for ch in t:
                out.extend(f_const(ch))
        elif type(t) is Ch:
            out.extend(f_ch(t.e))
        elif type(t) is It:
            out.extend(tit(t.c, map_toks(t.a, f_const, f_ch), map_toks(t.b, f_const, f_ch)))
        elif type(t) is Rep:
            u = []
            for ch in t.u:
                u.extend(f_const(ch))
            if all(type(x) is str for x in u):
                out.extend(trep("".join(u), t.n))
            else:
                n = run().pin(t.n, "repetition mapped symbolically")
                out.extend(u * n)
        elif type(t) is Num:
            sample = [f_const(c) for c in "-0123456789"]
            if all(x == (c,) for x, c in zip(sample, "-0123456789")):
                out.append(t)
            else:
                out.extend(map_toks(tuple(flatten((t,))), f_const, f_ch))
        else:
            out.extend(map_toks(tuple(flatten((t,), True)), f_const, f_ch))
    return tuple(out)


def translate(s, table):
    if not isinstance(table, dict):
        return str_concrete_call(s, "translate", (table,), {})

    def val(v, e):
        if v is None:
            return ()
        if isinstance(v, int):
            return (chr(v),)
        return toks_of(v)
    items = [(k if isinstance(k, int) else ord(k), v) for k, v in table.items()]

    def f_const(ch):
        if ord(ch) in table:
            return val(table[ord(ch)], None)
        return (ch,)

    def f_ch(e):
        cur = (tch(e),)
        r = run()
        for k, v in reversed(items):
            c = In(e, ((k, k),))
            d = r.decide(c)
            if d is False:
                continue
            cur = tit(c, val(v, e), cur)
        return cur
    return mk(map_toks(s.toks, f_const, f_ch))


def join(sep, it):
    items = list(it)
    st = toks_of(sep)
    out = []
    for i, x in enumerate(items):
        if not isinstance(x, str):
            raise TypeError("sequence item %d: expected str instance, %s found" % (
                i, type(x).__name__))
        if i:
            out.extend(st)
        out.extend(toks_of(x))
    return mk(tuple(out))


def to_str(x):
    """str(x) for formatting."""
    if isinstance(x, str):
        return x
    if isinstance(x, SymInt):
        return x.__str__()
    return str(x)


def percent(fmt, args):
    if isinstance(fmt, SymStr):
        if any(type(t) is str and "%" in t for t in fmt.toks) or True:
            fmt = concretize(fmt, "% format string") if any(
                type(t) is not str for t in fmt.toks) else fmt
    if isinstance(args, dict):
        seq = None
    elif isinstance(args, tuple):
        seq = list(args)
    else:
        seq = [args]
    out = []
    i = 0
    s = str.__str__(fmt)
    while i < len(s):
        j = s.find("%", i)
        if j < 0:
            out.append(s[i:])
            break
        out.append(s[i:j])
        k = j + 1
        if seq is None and s[k:k + 1] == "(":
            e = s.index(")", k)
            key = s[k + 1:e]
            v = args[key]
            k = e + 1
        elif s[k:k + 1] == "%":
            out.append("%")
            i = k + 1
            continue
        else:
            if seq is None:
                raise TypeError("format requires a mapping")
            if not seq:
                raise TypeError("not enough arguments for format string")
            v = seq.pop(0)
        conv = s[k:k + 1]
        if conv == "s":
            out.extend(toks_of(to_str(v)))
        elif conv in "di" and isinstance(v, int):
            out.extend(toks_of(to_str(v)) if isinstance(v, SymInt) else (str(int(v)),))
        elif conv == "r":
            out.extend(toks_of(repr(v)))
        else:
            # generic: concretise the rest
            m = k
            while m < len(s) and s[m] not in "diouxXeEfFgGcrsa":
                m += 1
            out.append(("%" + s[k:m + 1]) % (concretize(v, "% format"),))
            k = m
        i = k + 1
    return mk(tuple(out))


def str_format(fmt, a, k):
    import string
    if isinstance(fmt, SymStr):
        fmt = concretize(fmt, "format string")
    out = []
    auto = 0
    for lit, name, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if name is None:
            continue
        if name == "" or name[0] in ".[":
            name = str(auto) + name
            auto += 1
        obj, _ = string.Formatter().get_field(name, a, k)
        out.extend(toks_of(fmt_value(obj, conv, spec)))
    return mk(tuple(out))


def fmt_value(v, conv, spec):
    if conv in ("r", 114):
        v = repr(v)
    elif conv in ("a", 97):
        v = ascii(concretize(v, "ascii"))
    elif conv in ("s", 115):
        v = to_str(v)
    if not spec:
        if isinstance(v, str):
            return v
        if type(v).__format__ is object.__format__:
            return to_str(v)
        return format(v, "")
    if is_sym(spec):
        spec = concretize(spec, "format spec")
    return format(concretize(v, "format spec") if is_sym(v) else v, spec)


# ---- giving up -----------------------------------------------------------------------


def pin_toks(ts, why):
    r = run()
    for t in ts:
        if type(t) in (Ch, Num):
            r.pin(t.e, why)
        elif type(t) is It:
            if r.decide(t.c) is None:
                r.stats.pins += 1
                r.stats.concretised[why] = r.stats.concretised.get(why, 0) + 1
                b = r.branch(t.c)
            else:
                b = r.decide(t.c)
            pin_toks(t.a if b else t.b, why)
        elif type(t) is Rep:
            r.pin(t.n, why)
        elif type(t) is Opq:
            pin_toks(t.key, why)


def concretize(x, why):
    if isinstance(x, SymStr):
        pin_toks(x.toks, why)
        return str.__str__(x)[:] if False else "".join(str.__iter__(x))
    if isinstance(x, SymInt):
        return run().pin(x.e, why)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymBytes):
        pin_toks(x.toks, why)
        return bytes(bytearray(x))
    return x


def plain(x):
    """The current concrete value, without recording anything."""
    if isinstance(x, SymStr):
        return "".join(str.__iter__(x))
    if isinstance(x, SymInt):
        return int.__index__(x) + 0
    if isinstance(x, SymBool):
        return run().ev(x.e)
    if isinstance(x, SymBytes):
        return bytes(bytearray(x))
    return x


def str_concrete_call(s, name, a, k):
    why = "str.%s" % name
    s = concretize(s, why)
    a = tuple(concretize(x, why) for x in a)
    k = {n: concretize(x, why) for n, x in k.items()}
    return getattr(s, name)(*a, **k)


def _fallback(name):
    def f(self, *a, **k):
        return str_concrete_call(self, name, a, k)
    f.__name__ = name
    return f


for _n in dir(str):
    if not _n.startswith("_") and _n not in SymStr.__dict__ and _n not in (
            "maketrans",):
        setattr(SymStr, _n, _fallback(_n))

# dynamic str subclasses carrying symbolic content -----------------------------------------
_dyn = {}


def dyn_class(cls):
    d = _dyn.get(cls)
    if d is None:
        d = type(cls.__name__, (cls, SymStr), {"__module__": cls.__module__})
        d._symx_base = cls
        # equality / hashing stay those of SymStr
        _dyn[cls] = d
    return d


def mk_sub(cls, s):
    o = str.__new__(dyn_class(cls), "".join(str.__iter__(s)))
    o.toks = toks_of(s)
    return o
