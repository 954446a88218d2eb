"""A backtracking regular-expression matcher over symbolic strings."""
from __future__ import annotations

import re
import re._constants as C
import re._parser as P

from . import expr as X
from .expr import And, Or, Not, In
from . import engine
from .strs import (SymStr, toks_of, mk, flatten, cin, ceq, map_toks, tch, tit, run,
                   uni_class, concretize, is_sym, Ch, It, Rep, Num, Opq, wrapb)

FULL = ((0, 0x10FFFF),)
_parsed = {}


def get_pattern(p, flags=0):
    """(tree, flags, compiled) of a str / compiled pattern."""
    if isinstance(p, re.Pattern):
        key = (p.pattern, p.flags)
        pat, fl = p.pattern, p.flags
    else:
        if isinstance(p, SymStr):
            p = concretize(p, "symbolic regex")
        key = (p, int(flags))
        pat, fl = p, int(flags)
    r = _parsed.get(key)
    if r is None:
        comp = re.compile(pat, fl)
        tree = P.parse(pat, fl & ~re.DEBUG)
        fl2 = tree.state.flags | fl
        r = _parsed[key] = (list(tree), fl2, comp)
    return r


def category(cat):
    n = {C.CATEGORY_DIGIT: "isdecimal", C.CATEGORY_SPACE: "isspace"}
    if cat in n:
        return uni_class(n[cat])
    if cat is C.CATEGORY_WORD:
        return X.cs_or(uni_class("isalnum"), ((95, 95),))
    if cat is C.CATEGORY_NOT_DIGIT:
        return X.cs_minus(FULL, uni_class("isdecimal"))
    if cat is C.CATEGORY_NOT_SPACE:
        return X.cs_minus(FULL, uni_class("isspace"))
    if cat is C.CATEGORY_NOT_WORD:
        return X.cs_minus(FULL, X.cs_or(uni_class("isalnum"), ((95, 95),)))
    raise engine.SymxError("regex category %s" % cat)


def fold(cs, flags):
    if not flags & re.IGNORECASE:
        return cs
    out = list(cs)
    for lo, hi in cs:
        if hi - lo > 400:
            out.append((lo, hi))
            continue
        for o in range(lo, hi + 1):
            for f in (str.lower, str.upper):
                r = f(chr(o))
                if len(r) == 1:
                    out.append((ord(r), ord(r)))
    return X.cs_norm(out)


def item_class(op, av, flags):
    """Charset of a single-width item, or None."""
    if op is C.LITERAL:
        return fold(((av, av),), flags)
    if op is C.NOT_LITERAL:
        return X.cs_minus(FULL, fold(((av, av),), flags))
    if op is C.ANY:
        return FULL if flags & re.DOTALL else X.cs_minus(FULL, ((10, 10),))
    if op is C.IN:
        cs = ()
        neg = False
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                cs = X.cs_or(cs, ((a, a),))
            elif o is C.RANGE:
                cs = X.cs_or(cs, (a,))
            elif o is C.CATEGORY:
                cs = X.cs_or(cs, category(a))
            else:
                return None
        cs = fold(cs, flags)
        return X.cs_minus(FULL, cs) if neg else cs
    if op is C.BRANCH:
        cs = ()
        for alt in av[1]:
            c = seq_class(list(alt), flags)
            if c is None:
                return None
            cs = X.cs_or(cs, c)
        return cs
    if op is C.SUBPATTERN:
        group, addf, delf, p = av
        if group is not None:
            return None
        return seq_class(list(p), (flags | addf) & ~delf)
    return None


def seq_class(seq, flags):
    if len(seq) != 1:
        return None
    return item_class(seq[0][0], seq[0][1], flags)


class Matcher:
    def __init__(self, cells, flags):
        self.cells = cells
        self.flags = flags
        self.run = run()

    def test(self, i, cs):
        if i >= len(self.cells):
            return False
        c = cin(self.cells[i], cs)
        if c is True or c is False:
            return c
        return self.run.branch(c)

    def m(self, seq, k, i, g, flags, cont):
        """Match seq[k:] at i then cont(i, groups)."""
        n = len(seq)
        while k < n:
            op, av = seq[k]
            cs = item_class(op, av, flags)
            if cs is not None:
                if not self.test(i, cs):
                    return None
                i += 1
                k += 1
                continue
            if op is C.AT:
                if not self.at(av, i, flags):
                    return None
                k += 1
                continue
            break
        if k >= n:
            return cont(i, g)
        op, av = seq[k]
        if op is C.SUBPATTERN:
            group, addf, delf, p = av
            fl = (flags | addf) & ~delf
            start = i

            def after(j, g2):
                if group is not None:
                    g2 = dict(g2)
                    g2[group] = (start, j)
                return self.m(seq, k + 1, j, g2, flags, cont)
            return self.m(list(p), 0, i, g, fl, after)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, i, g, flags,
                           lambda j, g2: self.m(seq, k + 1, j, g2, flags, cont))
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            hi = 10 ** 9 if hi is C.MAXREPEAT else int(hi)
            p = list(p)
            cs = seq_class(p, flags)
            if cs is not None:
                return self.rep1(cs, lo, hi, op, seq, k, i, g, flags, cont)
            if op is C.POSSESSIVE_REPEAT:
                raise engine.SymxError("possessive repeat")
            return self.repn(p, lo, hi, op is C.MAX_REPEAT, 0, seq, k, i, g, flags, cont)
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            for x in range(a, b):
                if i >= len(self.cells):
                    return None
                c = ceq(self.cells[i], self.cells[x])
                if not (c if isinstance(c, bool) else self.run.branch(c)):
                    return None
                i += 1
            return self.m(seq, k + 1, i, g, flags, cont)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            if direction < 0:
                w = p.getwidth()
                if w[0] != w[1]:
                    raise engine.SymxError("variable-width lookbehind")
                st = i - w[0]
                r = None if st < 0 else self.m(list(p), 0, st, g, flags,
                                               lambda j, g2: (j, g2) if j == i else None)
            else:
                r = self.m(list(p), 0, i, g, flags, lambda j, g2: (j, g2))
            if (r is not None) != (op is C.ASSERT):
                return None
            return self.m(seq, k + 1, i, r[1] if r is not None else g, flags, cont)
        raise engine.SymxError("regex op %s" % op)

    def rep1(self, cs, lo, hi, op, seq, k, i, g, flags, cont):
        if op is C.MIN_REPEAT:
            n = 0
            while n < lo:
                if not self.test(i + n, cs):
                    return None
                n += 1
            while True:
                r = self.m(seq, k + 1, i + n, g, flags, cont)
                if r is not None:
                    return r
                if n >= hi or not self.test(i + n, cs):
                    return None
                n += 1
        n = 0
        while n < hi and self.test(i + n, cs):
            n += 1
        if n < lo:
            return None
        if op is C.POSSESSIVE_REPEAT:
            return self.m(seq, k + 1, i + n, g, flags, cont)
        while n >= lo:
            r = self.m(seq, k + 1, i + n, g, flags, cont)
            if r is not None:
                return r
            n -= 1
        return None

    def repn(self, p, lo, hi, greedy, count, seq, k, i, g, flags, cont):
        def more():
            if count >= hi:
                return None
            return self.m(p, 0, i, g, flags, lambda j, g2: (
                None if j == i and count >= lo else
                self.repn(p, lo, hi, greedy, count + 1, seq, k, j, g2, flags, cont)))
        if count < lo:
            return more()
        if greedy:
            r = more()
            if r is not None:
                return r
            return self.m(seq, k + 1, i, g, flags, cont)
        r = self.m(seq, k + 1, i, g, flags, cont)
        if r is not None:
            return r
        return more()

    def at(self, av, i, flags):
        n = len(self.cells)
        if av is C.AT_BEGINNING_STRING:
            return i == 0
        if av is C.AT_BEGINNING:
            if i == 0:
                return True
            return bool(flags & re.MULTILINE) and self.test(i - 1, ((10, 10),))
        if av is C.AT_END_STRING:
            return i == n
        if av is C.AT_END:
            if i == n:
                return True
            if flags & re.MULTILINE:
                return self.test(i, ((10, 10),))
            return i == n - 1 and self.test(i, ((10, 10),))
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = category(C.CATEGORY_WORD)
            a = i > 0 and self.test(i - 1, w)
            b = i < n and self.test(i, w)
            return (a != b) == (av is C.AT_BOUNDARY)
        raise engine.SymxError("regex at %s" % av)


class SymMatch:
    def __init__(self, s, cells, start, end, groups, comp):
        self.string = s
        self.re = comp
        self.pos = 0
        self._c = cells
        self._s = start
        self._e = end
        self._g = groups
        self.endpos = len(cells)

    def _span(self, n):
        if isinstance(n, str):
            n = self.re.groupindex[n]
        if n == 0:
            return (self._s, self._e)
        if n > self.re.groups:
            raise IndexError("no such group")
        return self._g.get(n, (-1, -1))

    def span(self, n=0):
        return self._span(n)

    def start(self, n=0):
        return self._span(n)[0]

    def end(self, n=0):
        return self._span(n)[1]

    def _get(self, n, default=None):
        a, b = self._span(n)
        return default if a < 0 else mk(tuple(self._c[a:b]))

    def group(self, *ns):
        if not ns:
            return self._get(0)
        if len(ns) == 1:
            return self._get(ns[0])
        return tuple(self._get(n) for n in ns)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(k, default) for k in self.re.groupindex}

    @property
    def lastindex(self):
        return max(self._g) if self._g else None

    def expand(self, template):
        return expand_template(template, self)


class LazyMatch:
    """Truthy result of a search whose position nobody has asked for yet."""

    def __init__(self, make):
        self._make = make
        self._m = None

    def __getattr__(self, n):
        if self._m is None:
            self._m = self._make()
        return getattr(self._m, n)

    def __getitem__(self, n):
        return self.group(n)


def any_in(ts, cs):
    """Formula: some character of the string is in cs."""
    out = []
    for t in ts:
        if type(t) is str:
            if any(X.cs_has(cs, ord(c)) for c in t):
                return True
        elif type(t) is Ch:
            out.append(In(t.e, cs))
        elif type(t) is It:
            out.append(X.BIte(t.c, any_in(t.a, cs), any_in(t.b, cs)))
        elif type(t) is Rep:
            if any(X.cs_has(cs, ord(c)) for c in t.u):
                out.append(X.Le(1, t.n))
        else:
            if isinstance(t, Num):
                alpha = ((45, 45), (48, 57))
            else:
                alpha = t.alpha
            if alpha is not None and not X.cs_and(alpha, cs):
                continue
            for c in flatten((t,), True):
                out.append(cin(c, cs))
    return Or(*out)


def literal_seq(tree, flags):
    if flags & re.IGNORECASE:
        return None
    out = []
    for op, av in tree:
        if op is not C.LITERAL:
            return None
        out.append(chr(av))
    return "".join(out)


def _find(s, tree, flags, comp, cells, pos, full=False):
    mt = Matcher(cells, flags)
    n = len(cells)
    first = None
    if tree:
        first = item_class(tree[0][0], tree[0][1], flags)
    for i in range(pos, n + 1):
        if first is not None:
            if i >= n:
                return None
            c = cin(cells[i], first)
            if c is False:
                continue
        r = mt.m(tree, 0, i, {}, flags, lambda j, g: (j, g))
        if r is not None:
            return SymMatch(s, cells, i, r[0], r[1], comp)
    return None


def search(p, s, flags=0):
    tree, fl, comp = get_pattern(p, flags)
    cs = seq_class(tree, fl)
    if cs is not None:
        if not run().branch(run().simp(any_in(s.toks, cs))):
            return None
        return LazyMatch(lambda: _find(s, tree, fl, comp, flatten(s.toks, True), 0))
    lit = literal_seq(tree, fl)
    if lit:
        from .strs import contains_expr
        if not run().branch(run().simp(contains_expr(s.toks, lit))):
            return None
        return LazyMatch(lambda: _find(s, tree, fl, comp, flatten(s.toks, True), 0))
    return _find(s, tree, fl, comp, flatten(s.toks, True), 0)


def match(p, s, flags=0, full=False):
    tree, fl, comp = get_pattern(p, flags)
    cells = flatten(s.toks, True)
    mt = Matcher(cells, fl)
    r = mt.m(tree, 0, 0, {}, fl,
             lambda j, g: (j, g) if not full or j == len(cells) else None)
    if r is None:
        return None
    return SymMatch(s, cells, 0, r[0], r[1], comp)


def fullmatch(p, s, flags=0):
    return match(p, s, flags, True)


def finditer(p, s, flags=0):
    tree, fl, comp = get_pattern(p, flags)
    cells = flatten(s.toks, True)
    pos = 0
    out = []
    while pos <= len(cells):
        m = _find(s, tree, fl, comp, cells, pos)
        if m is None:
            break
        out.append(m)
        if m._e == m._s:
            # an empty match: next search must not return an empty match here again
            pos = m._e + 1
        else:
            pos = m._e
    return out


def findall(p, s, flags=0):
    out = []
    for m in finditer(p, s, flags):
        n = m.re.groups
        if n == 0:
            out.append(m.group())
        elif n == 1:
            out.append(m._get(1, ""))
        else:
            out.append(m.groups(""))
    return out


def expand_template(template, m):
    if isinstance(template, SymStr):
        if any(type(t) is not str or "\\" in t for t in template.toks):
            # a symbolic template: a backslash would make it a template
            if run().branch(any_in(template.toks, X.cs_of("\\"))):
                template = concretize(template, "regex template")
            else:
                return template
        else:
            return template
    parts = P.parse_template(template, m.re)
    out = []
    if isinstance(parts, tuple):        # older layout
        raise engine.SymxError("regex template layout")
    for x in parts:
        if isinstance(x, int):
            out.extend(toks_of(m._get(x, "")))
        elif x:
            out.extend(toks_of(x))
    return mk(tuple(out))


def sub(p, repl, s, count=0, flags=0, want_n=False):
    tree, fl, comp = get_pattern(p, flags)
    cs = seq_class(tree, fl)
    r = run()
    call = callable(repl)
    if cs is not None and count == 0 and isinstance(s, SymStr) and not want_n:
        if not call and isinstance(repl, str) and not isinstance(repl, SymStr) \
                and "\\" not in repl:
            rt = toks_of(repl)
            return mk(map_toks(
                s.toks,
                lambda ch: rt if X.cs_has(cs, ord(ch)) else (ch,),
                lambda e: _ite_ch(r, e, cs, rt)))
        if not call and isinstance(repl, str):
            def f(m):
                return toks_of(expand_template(repl, m))
        elif call:
            def f(m):
                return toks_of(repl(m))

        def one(ch):
            c = tch(ch) if not isinstance(ch, str) else ch
            return SymMatch(mk((c,)), [c], 0, 1, _groups1(tree), comp)

        def fch(e):
            d = r.decide(In(e, cs))
            if d is False:
                return (tch(e),)
            return _fork_or_merge(r, e, cs, lambda: f(one(e)))
        return mk(map_toks(s.toks,
                           lambda ch: f(one(ch)) if X.cs_has(cs, ord(ch)) else (ch,),
                           fch))
    cells = flatten(toks_of(s), True)
    if not isinstance(s, SymStr):
        s = mk(tuple(cells)) if cells else ""
    pos = 0
    out = []
    last = 0
    n = 0
    while pos <= len(cells) and (count == 0 or n < count):
        m = _find(s, tree, fl, comp, cells, pos)
        if m is None:
            break
        out.extend(cells[last:m._s])
        x = repl(m) if call else expand_template(repl, m)
        out.extend(toks_of(x))
        last = m._e
        n += 1
        if m._e == m._s:
            if m._e < len(cells):
                out.append(cells[m._e])
            last = m._e + 1
            pos = m._e + 1
        else:
            pos = m._e
    out.extend(cells[last:])
    res = mk(tuple(out))
    return (res, n) if want_n else res


def _groups1(tree):
    if tree[0][0] is C.SUBPATTERN and tree[0][1][0] is not None:
        return {tree[0][1][0]: (0, 1)}
    return {}


def _ite_ch(r, e, cs, rt):
    c = In(e, cs)
    d = r.decide(c)
    if d is True:
        return rt
    if d is False:
        return (tch(e),)
    return tit(c, rt, (tch(e),))


def _fork_or_merge(r, e, cs, f):
    """The replacement for a symbolic character that may be in cs: fork on membership."""
    if r.branch(In(e, cs)):
        return f()
    return (tch(e),)


def split(p, s, maxsplit=0, flags=0):
    out = []
    last = 0
    n = 0
    ms = finditer(p, s, flags)
    cells = ms[0]._c if ms else flatten(s.toks, True)
    for m in ms:
        if maxsplit and n >= maxsplit:
            break
        out.append(mk(tuple(cells[last:m._s])))
        out.extend(m.groups())
        last = m._e
        n += 1
    out.append(mk(tuple(cells[last:])))
    return out


def escape(s):
    special = re.escape("".join(chr(i) for i in range(128)))
    cs = ()
    for i in range(128):
        if len(re.escape(chr(i))) > 1:
            cs = X.cs_or(cs, ((i, i),))
    r = run()
    return mk(map_toks(s.toks, lambda ch: (re.escape(ch),),
                       lambda e: tit(In(e, cs), ("\\", tch(e)), (tch(e),))))
