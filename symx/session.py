"""The API a property harness is written against; one symbolic and one concrete version."""
from __future__ import annotations

from . import expr as X
from . import strs
from . import pat
from .expr import And, Or, Not, In, Eq, Le

UNICODE = X.UNICODE
ASCII_NAME = X.cs_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_")
ALPHA = X.cs_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
LOWER = X.cs_of("abcdefghijklmnopqrstuvwxyz")


def charset(chars):
    return X.cs_of(chars)


class Base:
    concrete = False

    def __init__(self, ht, tier):
        self.ht = ht
        self.tier = tier
        self.observed = []

    # -- derived helpers, same code in both modes --
    def pick(self, name, items):
        return items[self.choice(name, len(items))]

    def check_match(self, out, pattern, label):
        """out (str) is in the language of the pattern token tuple."""
        if not isinstance(out, str):
            self.check(False, label + " (not a str)")
            return
        self.check_expr(self.match_expr(out, pattern), label, out)

    def match_expr(self, out, pattern):
        return strs.match_toks(strs.toks_of(out), pattern)

    def check_eq(self, a, b, label):
        """Two strings are equal."""
        if not isinstance(a, str) or not isinstance(b, str):
            self.check(False, label + " (not both str)")
            return
        self.check_match(a, strs.toks_of(b), label)

    def attempt(self, fn, *a, **k):
        """(result, None) or (None, exception)."""
        try:
            return fn(*a, **k), None
        except Exception as e:        # Stop is a BaseException and passes through
            return None, e

    def covers(self, name):
        pass


class SymSession(Base):
    concrete = False

    def __init__(self, run, ht, tier):
        super().__init__(ht, tier)
        self.run = run

    # -- inputs --
    def _v(self, name, dom, default=None):
        return self.run.var(name, dom, default)

    def int(self, name, lo, hi, default=None):
        return strs.wrapi(self._v(name, ((lo, hi),), default))

    def bool(self, name):
        return strs.wrapb(In(self._v(name, ((0, 1),)), ((1, 1),)))

    def flag(self, name):
        """A forked (concrete) bool."""
        return bool(self.bool(name))

    def choice(self, name, n):
        if n == 1:
            return 0
        v = self._v(name, ((0, n - 1),), 0)
        lo, hi = 0, n - 1
        # binary search keeps the number of forks on a path logarithmic
        while lo < hi:
            mid = (lo + hi) // 2
            if self.run.branch(In(v, ((lo, mid),))):
                hi = mid
            else:
                lo = mid + 1
        return lo

    def str(self, name, maxlen, minlen=0, cs=UNICODE, first=None, default=None):
        toks = []
        n = None
        if minlen < maxlen:
            n = self._v(name + ".n", ((minlen, maxlen),),
                        maxlen if default is None else len(default))
        for i in range(maxlen):
            c = self._v("%s.%d" % (name, i), first if (i == 0 and first is not None) else cs,
                        ord(default[i]) if default is not None and i < len(default) else None)
            if i < minlen:
                toks.append(strs.tch(c))
            else:
                toks.extend(strs.tit(Le(i + 1, n), (strs.tch(c),), ()))
        return strs.mk(tuple(toks))

    def rep(self, name, unit, lo, hi):
        return strs.mk(strs.trep(unit, self._v(name, ((lo, hi),), lo)))

    def distinct(self, *xs):
        for i, a in enumerate(xs):
            for b in xs[:i]:
                self.assume(a != b)

    # -- conditions --
    def expr(self, x):
        if isinstance(x, strs.SymBool):
            return x.e
        if isinstance(x, X.E):
            return x
        if x is True or x is False:
            return x
        return bool(x)

    def assume(self, x):
        self.run.assume(self.expr(x))

    def check(self, x, label):
        self.check_expr(self.expr(x), label)

    def check_expr(self, e, label, out=None):
        self.run.checks.append((e, label))

    def implies(self, a, b):
        return strs.wrapb(Or(Not(self.expr(a)), self.expr(b)))

    def all(self, *xs):
        return strs.wrapb(And(*[self.expr(x) for x in xs]))

    def any(self, *xs):
        return strs.wrapb(Or(*[self.expr(x) for x in xs]))

    def contains(self, s, lit, fold=False):
        return strs.wrapb(strs.contains_expr(strs.toks_of(s), lit, fold))

    def char_in(self, s, cs):
        """The one-character string s is in the charset."""
        t = strs.toks_of(s)
        return strs.wrapb(strs.cin(t[0], cs))

    def any_in(self, s, cs):
        """Some character of s is in the charset."""
        from . import rex
        return strs.wrapb(rex.any_in(strs.toks_of(s), cs))

    def observe(self, x):
        self.observed.append(self.plain(x))

    def plain(self, x):
        if isinstance(x, str):
            return strs.plain(x) if isinstance(x, strs.SymStr) else str.__str__(x)
        if isinstance(x, strs.SymBool) or isinstance(x, strs.SymInt):
            return strs.plain(x)
        if isinstance(x, (list, tuple)):
            return [self.plain(y) for y in x]
        if isinstance(x, dict):
            return [[self.plain(k), self.plain(v)] for k, v in x.items()]
        if x is None or isinstance(x, (int, float, bool)):
            return x
        return repr(type(x).__name__)

    def covers(self, name):
        self.run.reached.add(name)


class AssumeFailed(BaseException):
    pass


class ConcreteSession(Base):
    concrete = True

    def __init__(self, env, ht, tier):
        super().__init__(ht, tier)
        self.env = dict(env)
        self.fails = []
        self.checks = 0
        self.detail = []

    def _v(self, name, dom, default=None):
        if name not in self.env:
            self.env[name] = X.cs_pick(dom) if default is None else default
        return self.env[name]

    def int(self, name, lo, hi, default=None):
        return self._v(name, ((lo, hi),), default)

    def bool(self, name):
        return bool(self._v(name, ((0, 1),)))

    flag = bool

    def choice(self, name, n):
        if n == 1:
            return 0
        return self._v(name, ((0, n - 1),), 0)

    def str(self, name, maxlen, minlen=0, cs=UNICODE, first=None, default=None):
        n = maxlen
        if minlen < maxlen:
            n = self._v(name + ".n", ((minlen, maxlen),),
                        maxlen if default is None else len(default))
        return "".join(chr(self._v("%s.%d" % (name, i),
                                   first if (i == 0 and first is not None) else cs,
                                   ord(default[i]) if default is not None and i < len(default)
                                   else None))
                       for i in range(maxlen))[:n]

    def rep(self, name, unit, lo, hi):
        return unit * self._v(name, ((lo, hi),), lo)

    def distinct(self, *xs):
        for i, a in enumerate(xs):
            for b in xs[:i]:
                self.assume(a != b)

    def expr(self, x):
        return bool(x)

    def assume(self, x):
        if not x:
            raise AssumeFailed()

    def check(self, x, label):
        self.check_expr(bool(x), label)

    def check_expr(self, e, label, out=None):
        self.checks += 1
        if not e:
            self.fails.append(label)
            if out is not None:
                self.detail.append([label, out])

    def implies(self, a, b):
        return (not a) or bool(b)

    def all(self, *xs):
        return all(xs)

    def any(self, *xs):
        return any(xs)

    def contains(self, s, lit, fold=False):
        if fold:
            import re
            return re.search(re.escape(lit), s, re.I | re.A) is not None
        return lit in s

    def char_in(self, s, cs):
        return X.cs_has(cs, ord(s))

    def any_in(self, s, cs):
        return any(X.cs_has(cs, ord(c)) for c in s)

    def observe(self, x):
        self.observed.append(self.plain(x))

    def plain(self, x):
        if isinstance(x, str):
            return str.__str__(x)
        if isinstance(x, (list, tuple)):
            return [self.plain(y) for y in x]
        if isinstance(x, dict):
            return [[self.plain(k), self.plain(v)] for k, v in x.items()]
        if x is None or isinstance(x, (int, float, bool)):
            return x
        return repr(type(x).__name__)
